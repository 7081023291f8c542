"""Contracts for /repo/src/serde_json.rs: see ctext.py"""
import ctext


def unit():
    return ctext.build('json')
