# Program entry for 32-bit Linux: the C library's start files for this machine are not installed.
    .globl _start
    .type _start, @function
_start:
    xorl %ebp, %ebp
    popl %esi
    movl %esp, %ecx
    andl $-16, %esp
    pushl %eax
    pushl %esp
    pushl %edx
    call 1f
1:  popl %ebx
    addl $_GLOBAL_OFFSET_TABLE_+(.-1b), %ebx
    pushl $0
    pushl $0
    pushl %ecx
    pushl %esi
    pushl main@GOT(%ebx)
    call __libc_start_main@PLT
    hlt
    .section .note.GNU-stack,"",@progbits
