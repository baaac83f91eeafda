s = np vp*
    np.Number == vp.Number

ap = adj*

ap = adv ap*

np = subst*

np = ap np*
    ap.Case == np.Case,
    ap.Gender == np.Gender

vp = verb*

vp = vp* np
    np.Case == acc,
    setscore 1
