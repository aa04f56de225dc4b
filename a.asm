 processor 68908
 org 240
 repeat 4
 eor L1,sp
 repend
L1
 adc #<L1
