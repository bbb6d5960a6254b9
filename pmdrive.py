#!/usr/bin/env python3
"""Runs one monitor process inside the compiler: pmdrive.py <so> <toolchain> <suite> <args...>"""
import os
import subprocess
import sys
import tempfile

USE = '''#![allow(warnings, text_direction_codepoint_in_literal)]
macro_rules! through {
    ($e:expr, $l:literal, $t:ty, $i:ident, $p:pat, $v:vis, $($r:tt)*) => {
        pmmon::run! { alpha $($r)* $e $l $t from_the_definition ($i [$e] { $l }) $p $v ends_here }
    };
}
through! { (1), 5u8, [Ty], passed, Some(_), pub(crate),
  beta_two gamma_three (delta [epsilon] { zeta }) "some string" 12345 += -> 'life éta_ὕ b"bytes"
  /// documentation
  "several
   lines, é, and
more" /* é */ after_a_comment { on
  lines   } r#"raw "string" é"# r#type 0x1f_u32 1.5e3 'c' b'n' c"é"
  long_identifier_for_puncts last
}
'''


def main():
    so, toolchain, args = sys.argv[1], sys.argv[2], sys.argv[3:]
    d = tempfile.mkdtemp(dir=os.getcwd())
    src = os.path.join(d, "use.rs")
    err = os.path.join(d, "stderr")
    with open(src, "w") as f:
        f.write(USE)
    env = dict(os.environ, MON_ARGS="\x1f".join(args), MON_STDERR=err, RUSTC_ICE="0")
    env.setdefault("RUST_MIN_STACK", str(16 << 20))
    cmd = ["rustc"] + ([toolchain] if toolchain != "-" else []) + [
        "--edition", "2021", "--crate-type", "lib", "--crate-name", "used", "--emit=metadata", "-o", os.path.join(d, "used.rmeta"),
        "--extern", "pmmon=" + so, src]
    with open(err, "wb") as e:
        p = subprocess.run(cmd, env=env, stdout=e, stderr=e, cwd=d)
    sys.stdout.write(open(err, errors="replace").read()[-4000:])
    sys.exit(p.returncode if p.returncode >= 0 else 128 - p.returncode)


main()
