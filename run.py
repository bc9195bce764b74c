#!/usr/bin/env python3
"""run.py <property> quick|thorough [--case ID] [--seed N]

Builds what the check needs from /repo's working tree, then runs the check in the
Python environment of the repository."""
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import acbuild  # noqa: E402


def variant_of(pid):
    with open(os.path.join(HERE, 'checks', pid.lower() + '.py')) as f:
        src = f.read()
    m = re.search(r"^VARIANT\s*=\s*(.+)$", src, re.M)
    return eval(m.group(1)) if m else 'plain'


def preload(lib):
    return ' '.join(os.path.realpath(subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip()) for n in (lib, 'libstdc++.so.6'))


def main():
    pid = sys.argv[1]
    v = variant_of(pid)
    v = os.environ.get('VP_VARIANT', v) if v else v
    if v:
        try:
            prefix = acbuild.build(v)
        except acbuild.BuildError as e:
            print('HARNESS ERROR: %s' % e)
            return 2
    else:
        prefix = acbuild.make_prefix_only()
    env = acbuild.env_for(prefix)
    env['VP_PREFIX'] = prefix
    if v == 'asan':
        env['LD_PRELOAD'] = acbuild.deepbind_shim() + ' ' + preload('libasan.so')
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=1:detect_odr_violation=0:verify_asan_link_order=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=67'
        env['PYTHONMALLOC'] = 'malloc'
    elif v == 'tsan':
        env['LD_PRELOAD'] = acbuild.deepbind_shim() + ' ' + preload('libtsan.so')
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_signal_unsafe=0'
    py = acbuild.PY
    os.chdir(HERE)
    return subprocess.call([py, os.path.join(HERE, 'lib', 'vp.py')] + sys.argv[1:], env=env)


if __name__ == '__main__':
    sys.exit(main())
