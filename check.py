#!/usr/bin/env python3
"""python3 check.py <property id> [quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  from discsa import core
  from discsa.checks import registry
  fn, expl = registry.get(pid)
  return core.main(pid, fn, tier, os.environ.get('DISCS_REPO', '/repo'), expl)


if __name__ == '__main__':
  import threading
  threading.stack_size(512 * 1024 * 1024)
  rc = []
  t = threading.Thread(target=lambda: rc.append(main()))
  t.start()
  t.join()
  sys.exit(rc[0] if rc else 3)
