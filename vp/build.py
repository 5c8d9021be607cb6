"""Building classes under test, and value encoding for JSON-able cases."""
from __future__ import annotations
import itertools
from datetime import date, datetime, timedelta, timezone
from enum import Enum
from typing import Any

_n = itertools.count(1)


def graph(prefix='vp'):
    """A class graph name that no other case uses."""
    return f'{prefix}{next(_n)}'


def jc(name, fields, g=None, bases=(), plain=None, **conf):
    """Define a JSON class.

    fields: name -> Types object (annotation Any), or (annotation, default)
    plain: name -> annotation only
    """
    from jsonclasses import jsonclass
    ns = {'__annotations__': {}, '__module__': __name__}
    for k, v in fields.items():
        ns['__annotations__'][k] = Any
        ns[k] = v
    for k, v in (plain or {}).items():
        ns['__annotations__'][k] = v
    cls = type(name, tuple(bases), ns)
    return jsonclass(class_graph=g or graph(), **conf)(cls)


def T():
    from jsonclasses import types
    return types


def enc(v):
    """Encode a Python value as JSON (tagged)."""
    if isinstance(v, Enum):
        raise TypeError(v)
    if isinstance(v, datetime):
        return {'$dt': v.isoformat()}
    if isinstance(v, date):
        return {'$d': v.isoformat()}
    if isinstance(v, timedelta):
        return {'$td': v.total_seconds()}
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return {'$f': repr(v)}
    if isinstance(v, tuple):
        return {'$t': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {'$m': [[enc(k), enc(x)] for k, x in v.items()]}
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if '$dt' in v:
            return datetime.fromisoformat(v['$dt'])
        if '$d' in v:
            return date.fromisoformat(v['$d'])
        if '$td' in v:
            return timedelta(seconds=v['$td'])
        if '$f' in v:
            return float(v['$f'])
        if '$t' in v:
            return tuple(dec(x) for x in v['$t'])
        if '$m' in v:
            return {dec(k): dec(x) for k, x in v['$m']}
        return {k: dec(x) for k, x in v.items()}
    return v


def iso_dt(d):
    """The documented JSON form of a datetime: UTC, millisecond precision."""
    if d.tzinfo is not None:
        d = d.astimezone(timezone.utc).replace(tzinfo=None)
    return d.strftime('%Y-%m-%dT%H:%M:%S.') + f'{d.microsecond // 1000:03d}Z' \
        if d.year >= 1000 else (
            f'{d.year:04d}-{d.month:02d}-{d.day:02d}T{d.hour:02d}:'
            f'{d.minute:02d}:{d.second:02d}.{d.microsecond // 1000:03d}Z')


def camel(s):
    """Reference camelize: snake_case to lowerCamelCase, idempotent."""
    parts = s.split('_')
    head = parts[0]
    return head[:1].lower() + head[1:] + ''.join(
        p[:1].upper() + p[1:] for p in parts[1:])


def unmodified(obj):
    obj._mark_unmodified()
    return obj


def vexc():
    from jsonclasses.excs import ValidationException
    return ValidationException
