"""Birthday search for property sets whose 8-digit hashes coincide; prints pairs (used by C03/C05, verified at run time)."""
import hashlib
def h(props):
    return hashlib.sha256("".join(f"{n} :: {f} :: {v}\n" for n, f, v in sorted(props)).encode()).hexdigest()[:8]
import itertools, sys
def search(make, want):
    seen, out = {}, []
    for i in itertools.count():
        p = make(i)
        k = h(p)
        if k in seen:
            out.append((seen[k], p)); 
            if len(out) == want: return out
        else:
            seen[k] = p
print(search(lambda i: (("n", "f", str(i)),), 4))
print(search(lambda i: (("n", "f", "s"), ("n", "g", str(i))), 2))
# across features: one from family a, one from family b
A = {}
for i in range(200000):
    A.setdefault(h((("n", "f", str(i)),)), i)
out = []
for j in itertools.count():
    k = h((("m", "g", str(j)),))
    if k in A:
        out.append(((("n", "f", str(A[k])),), (("m", "g", str(j)),)))
        if len(out) == 2: break
print(out)
