# run.py <directory of the modules> <points> <results>: each line of points is
# "s k x" (set setting k), "g k" (get), "w i v0 ... v35" (wrapper i), "p name a b [c]" (the
# module of the repository; complex if there are three numbers)
import struct, sys
sys.path.insert(0, sys.argv[1])
import wrapx
try:
    import pyqcd_sme_so as own
except ImportError:
    own = None
f = lambda h: struct.unpack(">d", bytes.fromhex(h))[0]
h = lambda x: struct.pack(">d", x).hex()
out = open(sys.argv[3], "w")
for l in open(sys.argv[2]):
    w = l.split()
    if w[0] == "s":
        getattr(wrapx, "s" + w[1])(f(w[2]))
        out.write("-\n")
    elif w[0] == "g":
        out.write(h(getattr(wrapx, "g" + w[1])()) + "\n")
    elif w[0] == "w":
        r = getattr(wrapx, "w" + w[1])([f(x) for x in w[2:]])
        out.write(h(r[0]) + " " + h(r[1]) + "\n")
    else:
        a = [f(x) for x in w[2:]]
        try:
            r = complex(getattr(own, w[1])(*((complex(a[0], a[1]), a[2]) if len(a) == 3 else a))) if own else None
            out.write(h(r.real) + " " + h(r.imag) + "\n" if own else "-\n")
        except Exception as e:
            out.write("error " + repr(e) + "\n")
out.close()
