.data
.balign 64
.globl sim_data_begin
sim_data_begin: .quad 0
.bss
.balign 64
.globl sim_bss_begin
sim_bss_begin: .quad 0
.text
.globl sim_text_begin
sim_text_begin: nop
.section .note.GNU-stack,"",@progbits
