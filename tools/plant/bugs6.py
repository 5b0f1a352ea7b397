PY = '''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="demo-")
for f in os.listdir("scripts"):
    if f.endswith(".py"):
        shutil.copy("scripts/" + f, d)
def run(name, arg):
    r = subprocess.run([sys.executable, "-B", name, arg], cwd=d, stdout=subprocess.PIPE, text=True, timeout=60)
    assert r.returncode == 0
    return r.stdout.splitlines()
try:
    check()
finally:
    shutil.rmtree(d, ignore_errors=True)
'''
def demo(body):
    return "def check():\n" + "".join("    " + l + "\n" for l in body.strip().split("\n")) + PY
BUGS = [
dict(id="C24-high-half", property="C24",
 needs="a four byte number whose lower half is 0x8000 or more",
 breaks="the halves of a four byte number are put together as if the lower one had a sign",
 edits=[("scripts/decode_int.py", "return (get_int(ns[0:2]) << 16) + get_int(ns[2:4])", "return (get_int(ns[0:2]) << 16) + (get_int(ns[2:4]) ^ 0x8000) - 0x8000")],
 demo=demo('''assert run("decode_int.py", "0, 1, 128, 0") == ["98304"]''')),
dict(id="C24-key-prefix", property="C24",
 needs="a chunk whose key begins with the digits 16",
 breaks="chunks whose key only begins with 16 are printed as texts too",
 edits=[("scripts/decode_all_strings.py", 'if pairs[1][1] == "Some(16)":', 'if pairs[1][1].startswith("Some(16"):')],
 demo=demo('''open(d + "/dump", "w").write('Path:["3"]::reference:Some(160)::ref_data:[59]::size:1::ins:6\\\\n')
assert run("decode_all_strings.py", "dump") == []''')),
dict(id="C24-name-pairs", property="C24",
 needs="a name with a q",
 breaks="the letters p and q of names are exchanged",
 edits=[("scripts/decode_2byte_string.py", "        (0x13, 0xb3): 'p',\n        (0x13, 0xc8): 'q',", "        (0x13, 0xb3): 'q',\n        (0x13, 0xc8): 'p',")],
 demo=demo('''assert run("decode_2byte_string.py", "19,200") == ["q"]''')),
]
