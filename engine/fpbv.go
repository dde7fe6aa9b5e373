package main

import "fmt"

// Floating-point conversions written as bit-vector arithmetic on the IEEE-754 bits (the solver's floating-point
// theory needs seconds for what bit-blasts to a few hundred gates).

func bvc(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

// bvWiden: float32 bits -> float64 bits (a signalling NaN becomes quiet, as the hardware does).
func bvWiden(x string) string {
	sub := "(concat s #b00000000000 " + bvc(52, 0) + ")"
	for k := 0; k <= 22; k++ {
		// highest set bit k: value 1.f * 2^(k-149)
		frac := "#b" + zeros(29)
		if k > 0 {
			frac = fmt.Sprintf("(concat ((_ extract %d 0) m) #b%s)", k-1, zeros(52-k))
		} else {
			frac = bvc(52, 0)
		}
		sub = fmt.Sprintf("(ite (= ((_ extract %d %d) m) #b1) (concat s %s %s) %s)", k, k, bvc(11, uint64(1023-149+k)), frac, sub)
	}
	return "(let ((s ((_ extract 31 31) " + x + ")) (e ((_ extract 30 23) " + x + ")) (m ((_ extract 22 0) " + x + ")))" +
		" (ite (= e #xff) (ite (= m " + bvc(23, 0) + ") (concat s #b11111111111 " + bvc(52, 0) + ") (concat s #b111111111111 ((_ extract 21 0) m) #b" + zeros(29) + "))" +
		" (ite (= e #x00) " + sub + " (concat s (bvadd (concat #b000 e) " + bvc(11, 896) + ") m #b" + zeros(29) + "))))"
}

func zeros(n int) string { return fmt.Sprintf("%0*b", n, 0) }

// bvNarrow: float64 bits -> float32 bits, round to nearest even.
func bvNarrow(x string) string {
	return "(let ((s ((_ extract 63 63) " + x + ")) (e ((_ extract 62 52) " + x + ")) (m ((_ extract 51 0) " + x + ")))" +
		" (let ((e64 (concat " + bvc(53, 0) + " e)) (sig (concat #b00000000000 (ite (= e " + bvc(11, 0) + ") #b0 #b1) m)))" +
		" (let ((E (ite (bvugt e64 " + bvc(64, 897) + ") (bvsub e64 " + bvc(64, 896) + ") " + bvc(64, 1) + "))" +
		" (sh (ite (bvult e64 " + bvc(64, 897) + ") (ite (bvult e64 " + bvc(64, 860) + ") " + bvc(64, 63) + " (bvadd " + bvc(64, 29) + " (bvsub " + bvc(64, 897) + " e64))) " + bvc(64, 29) + ")))" +
		" (let ((q (bvlshr sig sh)) (rem (bvshl sig (bvsub " + bvc(64, 64) + " sh))))" +
		" (let ((up (or (bvugt rem #x8000000000000000) (and (= rem #x8000000000000000) (= ((_ extract 0 0) q) #b1)))))" +
		" (let ((r (bvadd (bvshl (bvsub E " + bvc(64, 1) + ") " + bvc(64, 23) + ") q (ite up " + bvc(64, 1) + " " + bvc(64, 0) + "))))" +
		" (ite (= e #b11111111111) (ite (= m " + bvc(52, 0) + ") (concat s #xff #b" + zeros(23) + ") (concat s #b111111111 ((_ extract 50 29) m)))" +
		" (ite (bvuge r #x000000007f800000) (concat s #xff #b" + zeros(23) + ") (concat s ((_ extract 30 0) r))))))))))"
}

// bvFTo: float64 bits -> 64-bit integer as the compiled code converts (truncation, indefinite value outside).
func bvFTo(x string, signed bool, nan string) string {
	s := "(let ((s ((_ extract 63 63) " + x + ")) (e (concat " + bvc(53, 0) + " ((_ extract 62 52) " + x + "))) (m ((_ extract 51 0) " + x + ")))" +
		" (let ((sig (concat #b00000000000 #b1 m)))" +
		" (let ((mag (ite (bvuge e " + bvc(64, 1075) + ") (bvshl sig (bvsub e " + bvc(64, 1075) + ")) (bvlshr sig (bvsub " + bvc(64, 1075) + " e)))))" +
		" (ite (bvult e " + bvc(64, 1023) + ") " + bvc(64, 0) +
		" (ite (bvule e " + bvc(64, 1085) + ") (ite (= s #b1) (bvneg mag) mag) "
	if signed {
		return s + "#x8000000000000000)))))"
	}
	return s + "(ite (and (= e " + bvc(64, 2047) + ") (distinct m " + bvc(52, 0) + ")) " + nan + " (ite (and (= s #b0) (= e " + bvc(64, 1086) + ")) mag #x8000000000000000)))))))"
}

// bvFFrom: 64-bit integer -> float bits, round to nearest even.
func bvFFrom(x string, signed bool, to int) string {
	p, bias := 53, 1023
	if to == 32 {
		p, bias = 24, 127
	}
	neg := "false"
	if signed {
		neg = "(bvslt " + x + " " + bvc(64, 0) + ")"
	}
	s := "(let ((n " + neg + ")) (let ((m0 (ite n (bvneg " + x + ") " + x + ")) (l0 " + bvc(64, 0) + "))"
	cl := "))"
	i := 0
	for _, k := range []int{32, 16, 8, 4, 2, 1} {
		z := fmt.Sprintf("(= ((_ extract 63 %d) m%d) %s)", 64-k, i, bvc(k, 0))
		s += fmt.Sprintf(" (let ((m%d (ite %s (bvshl m%d %s) m%d)) (l%d (ite %s (bvadd l%d %s) l%d)))", i+1, z, i, bvc(64, uint64(k)), i, i+1, z, i, bvc(64, uint64(k)), i)
		cl += ")"
		i++
	}
	s += fmt.Sprintf(" (let ((q (bvlshr m%d %s)) (rem (bvshl m%d %s)) (E (bvsub %s l%d)))", i, bvc(64, uint64(64-p)), i, bvc(64, uint64(p)), bvc(64, uint64(63+bias)), i)
	s += " (let ((up (or (bvugt rem #x8000000000000000) (and (= rem #x8000000000000000) (= ((_ extract 0 0) q) #b1)))))"
	s += fmt.Sprintf(" (let ((r (bvadd (bvshl (bvsub E %s) %s) q (ite up %s %s))))", bvc(64, 1), bvc(64, uint64(p-1)), bvc(64, 1), bvc(64, 0))
	s += fmt.Sprintf(" (ite (= m0 %s) %s (concat (ite n #b1 #b0) ((_ extract %d 0) r)))", bvc(64, 0), bvc(to, 0), to-2)
	return s + ")))" + cl
}
