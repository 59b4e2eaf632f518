"""Pools of values of every type (built fresh for every case)"""
import datetime
import re

from .runner import Host, Lib

UTC = datetime.timezone.utc


def numbers():
    return [0, -0.0, 1.0, -1, 2, 3.0, 7, 10, 0.5, -2.5, 0.1, 1e300, 5e-324, float(2 ** 53), 1e15, 1e21, 100, -3, 1e-7, 255]


def strings():
    return ['', 'a', 'A', 'ab', 'b', '0', '1.5', 'null', 'true', '2024-02-29', '\u00e9', '\U0001f600', 'a.0,b', ' x ', 'abcabc', '12', '-7']


def datetimes():
    return [datetime.datetime(2024, 2, 29, 12, 30, 5, 250000), datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29),
            datetime.datetime(2023, 12, 31, 23, 59, 59, 999000), datetime.datetime(2024, 2, 29, 12, 30, 5, 250000, tzinfo=UTC),
            datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=-5))), datetime.datetime(100, 1, 1)]


def arrays():
    return [[], [1], [1, 2.0], [2, 1], ['a'], [None], [[1], {}], [True, 'x', 3], [[], []]]


def objects():
    return [{}, {'a': 1}, {'b': 1, 'a': 2}, {'a': 2, 'b': 1}, {'a': [1, {'c': None}]}, {'': 0}, {'a': None}]


def others():
    return [Host('hlog'), Host('hfail'), Lib('mathAbs'), Lib('arrayNew'), re.compile('a+'), re.compile('')]


def all_values():
    return [None, True, False] + numbers() + strings() + datetimes() + arrays() + objects() + others()


def small():
    """one or two values of every type"""
    return [None, True, False, 0, 1.0, -1, 2.5, 7, 1e300, '', 'a', 'ab', '12', datetime.datetime(2024, 2, 29, 12, 30), [], [1, 'a', 2.0], ['b', 'a'],
            {}, {'a': 1, 'b': [2]}, Host('hlog'), Host('hfail'), Lib('mathAbs'), re.compile('a+')]


def pick(rng, values):
    return values[rng.randrange(len(values))]
