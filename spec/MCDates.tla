-------------------------------- MODULE MCDates --------------------------------
(* C23: local times in every zone and format read back as the instant they       *)
(* denote; strings one edit away from a rendering are read as what they say, or   *)
(* not at all.                                                                    *)
EXTENDS Dates
CONSTANTS Edited
AllDates == {<<1970, 1, 1>>, <<1969, 12, 31>>, <<2000, 2, 29>>, <<1900, 3, 1>>, <<2038, 1, 19>>, <<2020, 4, 9>>, <<2023, 12, 31>>,
             <<1, 1, 1>>, <<9999, 12, 31>>, <<2024, 10, 27>>, <<1582, 10, 10>>, <<2011, 5, 30>>, <<1996, 6, 20>>, <<2100, 2, 28>>, <<2007, 7, 7>>, <<2017, 8, 11>>, <<1999, 9, 9>>, <<1987, 11, 21>>}
AllTimes == {<<0, 0, 0>>, <<23, 59, 59>>, <<12, 34, 56>>, <<3, 14, 7>>, <<19, 0, 9>>}
Offsets == {0, 1, -1, 60, -60, 330, -570, 840, -720, -30, 345, 1439, -1439}
EditDates == {<<2020, 4, 9>>, <<1999, 12, 31>>, <<2000, 2, 29>>}
Alphabet == {"0", "1", "3", "6", "9", " ", ":", "-", "+", ".", "Z", "T", "a"}

Field(dt, t, o) == [y |-> dt[1], mo |-> dt[2], d |-> dt[3], h |-> t[1], mi |-> t[2], s |-> t[3], off |-> o]
NoEdit == [op |-> "none", at |-> 1, c |-> "0"]
(* an edit: replace or insert or remove at a place *)
Edits(s) == [op : {"put", "ins"}, at : 1..(Len(s) + 1), c : Alphabet] \cup [op : {"del"}, at : 1..Len(s), c : {"0"}]
Edit(s, e) == CASE e.op = "put" -> UpTo(s, e.at - 1) \o e.c \o From(s, e.at + 1)
                [] e.op = "ins" -> UpTo(s, e.at - 1) \o e.c \o From(s, e.at)
                [] e.op = "del" -> UpTo(s, e.at - 1) \o From(s, e.at + 1)
                [] OTHER -> s
VARIABLES fmt, when, edit
vars == <<fmt, when, edit>>
Init == /\ fmt \in Formats /\ edit = NoEdit
        /\ IF Edited THEN \E dt \in EditDates, o \in {0, -570} : when = Field(dt, <<23, 59, 9>>, o)
           ELSE \E dt \in AllDates, t \in AllTimes : when = Field(dt, t, 0)
Next == /\ edit.op = "none" /\ UNCHANGED fmt
        /\ IF Edited THEN edit' \in Edits(Render(fmt, when)) /\ UNCHANGED when
           ELSE when.off = 0 /\ UNCHANGED edit /\ \E o \in Offsets \ {0} : when' = [when EXCEPT !.off = o]
(* quantified over singletons so that they are computed once *)
Read == \A str \in {Edit(Render(fmt, when), edit)} : \A w \in {ParseDate(str)} :
          (edit.op = "none" => w = Denoted(fmt, when)) /\ PrintT(ToJson([s |-> str, want |-> w]))
=============================================================================
