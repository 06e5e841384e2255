INIT Init
NEXT Next
CONSTANTS
 Nums = {"1", "0", "0,0", "1,0", "2,1", "7,01", "007", "", ",", "1,", ",1", "1,1,1", "+1", "-1", "1,+1", "1,-1", "1,-0", "x", "1,x", "1 ", "1, 1",
   "9223372036854775807", "9223372036854775807,1", "9223372036854775808", "1,9223372036854775807", "1,9223372036854775808", "18446744073709551616,1", "0x1", "1_0", "4294967297,1", "4294967296"}
 Rest = {"1", "1,1", "5,0", "0,0", "3,2"}
INVARIANTS Sound Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
