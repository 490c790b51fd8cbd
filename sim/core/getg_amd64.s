#include "textflag.h"

// func getg() uintptr
TEXT ·getg(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET

// func ld(p *uint32) uint32
TEXT ·ld(SB),NOSPLIT,$0-12
	MOVQ p+0(FP), AX
	MOVL (AX), AX
	MOVL AX, ret+8(FP)
	RET

// func st(p *uint32, v uint32)
TEXT ·st(SB),NOSPLIT,$0-12
	MOVQ p+0(FP), AX
	MOVL v+8(FP), BX
	XCHGL BX, (AX)
	RET
