CONSTANTS Cells = {0, 1, 2}
 Ds = {0, 3, 5}
 Ps = {0, 2}
 MaxAdds = 4
INIT Init
NEXT Next
INVARIANT SumsUp Only
CHECK_DEADLOCK FALSE
