#include "textflag.h"

// func mcgetbp() uintptr
TEXT ·mcgetbp<ABIInternal>(SB),NOSPLIT|NOFRAME,$0-8
	MOVQ	BP, AX
	RET
