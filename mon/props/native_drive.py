"""Runs the workers of T04 in a build with AddressSanitizer and UndefinedBehaviorSanitizer."""
import os
import subprocess


def drive(pid, tier, seed, tree, scratch, only, limit, run_workers):
    from .. import build as mb
    san = tree or mb.build(os.path.join(scratch, "san"), sanitize=True)
    lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    env = dict(VERIF_SANITIZED="1", LD_PRELOAD=lib, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:malloc_fill_byte=255:"
               "max_malloc_fill_size=1000000:detect_stack_use_after_return=1:quarantine_size_mb=64",
               UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1")
    return run_workers(pid, tier, seed, san, scratch, only, limit, env)
