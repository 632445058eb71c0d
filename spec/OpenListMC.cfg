SPECIFICATION Spec
CONSTANTS W = 2
H = 2
Ds = {0, 3, 6}
Ps = {1}
MaxAdds = 3
INVARIANTS OncePerCell Disjoint ServedIsLog InRange ParentsServed
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
