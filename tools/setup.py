#!/usr/bin/env python3
"""Builds everything once, so that the first check of a session does not have to."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mvlib, mvbuild
def main():
    for build in (mvbuild.driver, mvbuild.csvdriver, mvbuild.saverdriver, mvbuild.uuiddriver, lambda: mvbuild.uuiddriver(True), mvbuild.lockdriver, mvbuild.concdriver):
        build()
    return 0
mvlib.main(main)
