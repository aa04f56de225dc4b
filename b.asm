 processor 68908
 org 240
 eor L1,sp
 eor L1,sp
 eor L1,sp
 eor L1,sp
L1
 adc #<L1
