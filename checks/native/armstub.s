@ stand-ins for the C library; the engine models these functions itself
.syntax unified
.text
.globl memcpy, memset, memmove, memcmp, __aeabi_memcpy, __aeabi_memcpy4, __aeabi_memcpy8, __aeabi_memset, __aeabi_memclr, __aeabi_memmove
.type memcpy,%function
.type memset,%function
.type memmove,%function
.type memcmp,%function
memcpy: bx lr
memset: bx lr
memmove: bx lr
memcmp: bx lr
__aeabi_memcpy: bx lr
__aeabi_memcpy4: bx lr
__aeabi_memcpy8: bx lr
__aeabi_memset: bx lr
__aeabi_memclr: bx lr
__aeabi_memmove: bx lr
.section .note.GNU-stack,"",%progbits
