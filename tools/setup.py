#!/usr/bin/env python3
"""Builds the engine and every harness group (a check also builds what it needs by itself)."""
import concurrent.futures

import check
import checks

groups = sorted({e.get("group", s.get("group")) for s in checks.CHECKS.values() for e in s["entries"]})
check.build_engine()
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for g, r in zip(groups, ex.map(check.build_group, groups)):
        print(g, *r)
