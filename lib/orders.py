"""Own the one source of nondeterminism in the compiler: the order in which Go
iterates maps.

The compiler is built from /repo with an overlay of the Go run time in which the
iteration start, the hash seed and the hash keys are values fixed at link time.
Maps of up to eight entries are iterated in insertion order from a start slot, so
eight start values give every order such a map can be seen in; larger maps
depend on start and seed."""
import json
import os
import subprocess

import vf

EXTRA = '''
var vfText string
var vfCount uint64

func vfNum(k int) uint64 {
	n := uint64(0)
	for i := 0; i < len(vfText); i++ {
		if vfText[i] == ',' {
			k--
		} else if k == 0 {
			n = n*10 + uint64(vfText[i]-'0')
		}
	}
	return n
}

func vfOffset() uint64 {
	vfCount++
	return vfNum(0) + vfNum(1)*(vfCount>>1)
}

func vfSeed() uint64 { return vfNum(2) }
'''
EDITS = {
    "internal/runtime/maps/table.go": [("it.entryOffset = rand()", "it.entryOffset = vfOffset()"),
                                       ("it.dirOffset = rand()", "it.dirOffset = vfOffset()")],
    "internal/runtime/maps/map.go": [("uintptr(rand())", "uintptr(vfSeed())")],
    "internal/runtime/maps/runtime.go": None,
    "internal/runtime/maps/runtime_alg.go": [("uintptr(bootstrapRand())", "uintptr(i)*0x9E3779B1 + 77"),
                                             ("= bootstrapRand()", "= uint64(i)*0x9E3779B97F4A7C15 + 77")],
}


class Orders:
    def __init__(self, d):
        self.dir = d
        os.makedirs(d, exist_ok=True)
        root = os.path.join(subprocess.check_output(["go", "env", "GOROOT"], text=True).strip(), "src")
        replace = {}
        for name, edits in EDITS.items():
            text = open(os.path.join(root, name)).read()
            for old, new in edits or []:
                if old not in text:
                    raise vf.CheckError("the Go run time has no %s in %s" % (old, name))
                text = text.replace(old, new)
            if edits is None:
                text += EXTRA
            path = os.path.join(d, name.replace("/", "_"))
            with open(path, "w") as f:
                f.write(text)
            replace[os.path.join(root, name)] = path
        self.overlay = os.path.join(d, "overlay.json")
        with open(self.overlay, "w") as f:
            json.dump({"Replace": replace}, f)

    def build(self, start, stride, seed):
        """compiler whose k-th map iteration starts at start + k * stride"""
        dest = os.path.join(self.dir, "vx-%d-%d-%d" % (start, stride, seed))
        p = vf.run(["go", "build", "-overlay", self.overlay, "-ldflags",
                    "-s -w -X internal/runtime/maps.vfText=%d,%d,%d" % (start, stride, seed), "-o", dest, "."],
                   cwd=os.path.join(vf.REPO, "src"), timeout=600)
        if p.returncode != 0:
            raise vf.CheckError("compiler does not build:\n" + p.stdout.decode(errors="replace"))
        return dest
