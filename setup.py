#!/usr/bin/env python3
"""builds the engine and, once, the harness"""
import check
check.build_engine()
check.build_all()
print('ready')
