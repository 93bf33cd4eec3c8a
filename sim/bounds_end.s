.data
.globl sim_data_end
sim_data_end: .quad 0
.bss
.globl sim_bss_end
sim_bss_end: .quad 0
.text
.globl sim_text_end
sim_text_end: nop
.section .note.GNU-stack,"",@progbits
