"""Contracts for /repo/src/serde_ron.rs: see ctext.py"""
import ctext


def unit():
    return ctext.build('ron')
