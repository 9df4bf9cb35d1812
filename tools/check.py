#!/usr/bin/env python3
"""check.py ID [engine options]: builds the engine of property ID against /repo's working tree and runs it.

Exit 0: held; 1: VIOLATION line printed; 2: error of the check itself (e.g. the tree does not compile)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

# property -> (build variant, engine source)
ENGINES = {
    "C01": ("fast", "c01_semantics.cpp"),
    "C02": ("san", "c02_arith.cpp"),
    "C03": ("fast", "c03_consteval.cpp"),
    "C04": ("san", "c04_equality.cpp"),
    "C05": ("san", "c05_maps.cpp"),
    "C06": ("san", "c06_sequences.cpp"),
    "C07": ("san", "c07_strings.cpp"),
    "C08": ("san", "c08_gc.cpp", "c08_models.cpp", "c08_hosts.cpp", "c08_coroutines.cpp"),
    "C09": ("san", "c09_coroutines.cpp"),
    "C10": ("fast", "c10_unwind.cpp", "c10_chains.cpp"),
    "C11": ("san", "c11_frontend.cpp"),
    "C12": ("fast", "c12_layout.cpp"),
    "C13": ("san", "c13_bytecode.cpp"),
    "C14": ("san", "c14_capi.cpp"),
    "C15": ("san", "c15_native.cpp"),
    "C16": ("san", "c16_modules.cpp"),
    "C17": ("san", "c17_isolation.cpp"),
    "C18": ("san", "c18_oom.cpp"),
    "C19": ("san", "c19_literals.cpp"),
    "C20": ("san", "c20_text.cpp"),
    "C21": ("san", "c21_codegen.cpp"),
    "C22": ("san", "c22_cpp.cpp", "c22_hook.cpp"),
    "C23": ("san", "c23_attachments.cpp"),
    "C25": ("san", "c25_types.cpp"),
    "C26": ("san", "c26_static.cpp"),
    "C24": ("san", "c24_cli.cpp", "c24_main.cpp"),
}

def main():
    pid = sys.argv[1]
    if pid == "--prepare":
        # every check builds what it needs itself; this only checks that the toolchain is there
        r = subprocess.run(["clang++", "--version"], stdout=subprocess.DEVNULL)
        return r.returncode
    variant, *srcs = ENGINES[pid]
    verif = B.VERIF
    out = os.path.join(B.BUILD, "bin", pid)
    try:
        t = B.build(variant, out, [os.path.join(verif, "engine", s) for s in srcs])
    except RuntimeError as e:
        print("check error: %s" % e); return 2
    print("built %s (%s) from %s in %.1fs" % (pid, variant, B.REPO, t), flush=True)
    env = dict(os.environ); env["TMPDIR"] = os.path.join(B.BUILD, "tmp")
    shutil.rmtree(env["TMPDIR"] + "/" + pid, ignore_errors=True)
    env["TMPDIR"] += "/" + pid
    os.makedirs(env["TMPDIR"], exist_ok=True)
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    cmd = [out, "--evidence", os.path.join(verif, "evidence", pid + ".json"), "--faildir", os.path.join(verif, "failures")]
    r = subprocess.run(cmd + sys.argv[2:], env=env, cwd=verif)
    shutil.rmtree(env["TMPDIR"], ignore_errors=True)
    return r.returncode if r.returncode in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
