"""Quaternion algebra: every quaternion operation is compared, as a value graph over the compiled source,
with the Hamilton algebra (product, conjugate, norm) and with the sandwich product q v q*."""
from alg import *
D = "d_rot.cpp"
QH = "src/utMath/Quaternion.h"
QC = "src/utMath/Quaternion.cpp"
FLOOR = 8


def run(C):
    C.equal(D, "vf_qmul", lambda c: free(c, 8), lambda c, x, o: qmul(x[:4], x[4:8]), 4, QH + " operator*", "hamilton-product")
    C.equal(D, "vf_qrot", lambda c: unitq(c) + free(c, 3), lambda c, x, o: qrot(x[:4], x[4:]), 3, QC + " Quaternion::operator*(Vector)", "rotate=sandwich")
    C.equal(D, "vf_qmat", lambda c: unitq(c), lambda c, x, o: flat(R(x)), 9, QH + " Quaternion::toMatrix", "matrix=sandwich")
    C.equal(D, "vf_qmatf", lambda c: unitq(c), lambda c, x, o: flat(R(x)), 9, QH + " Quaternion::toMatrix<float>", "matrix=sandwich")
    C.equal(D, "vf_m33quat", lambda c: unitq(c), lambda c, x, o: flat(R(x)), 9, "src/utMath/Matrix.h Matrix(Quaternion)", "matrix=sandwich")
    C.equal(D, "vf_qconj", lambda c: free(c, 4), lambda c, x, o: qconj(x), 4, QH + " operator~", "conjugate")
    C.equal(D, "vf_qinvert", lambda c: free(c, 4), lambda c, x, o: qconj(x) * 2, 8, QH + " invert", "conjugate")
    def nrm(c, x, o):
        n = c.sqrt(dot(x, x))
        return [a / n for a in x] * 2
    C.equal(D, "vf_qnorm", lambda c: free(c, 4), nrm, 8, QH + " normalize", "normalize")
    C.equal(D, "vf_qdef", lambda c: [], lambda c, x, o: [0, 0, 0, 1] + [0, 0, 0, 1, 0, 0, 0], 11, QH + " Quaternion()", "identity")

    def neg(c, x, o):
        d = dot(x[:4], x[4:])
        s = 1 if d.v == 0 or fp.is_qr(d.v) else -1
        return smul(s, x[:4])
    import fp
    C.equal(D, "vf_qneg", lambda c: free(c, 8), neg, 4, QH + " negateIfCloser", "closest-representative", samples=8)
    C.equal(D, "vf_qtovec", lambda c: free(c, 4), lambda c, x, o: x, 4, QH + " toVector", "component-order")
    C.equal(D, "vf_qfromvec", lambda c: free(c, 4), lambda c, x, o: x, 4, QH + " fromVector", "component-order")
