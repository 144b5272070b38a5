"""Shared by the coordinate properties: lat/long texts with free digits and their independent evaluation."""
from f15 import *
from levels import number, run, run_words, word
from sx.api import H
from fstruct import message

FIRST = 'N0450F350'
# where a point can stand: elements before, elements after, index of its record
PLACES = {
    'first point': ([FIRST], ['DCT', 'QNT'], 1),
    'last point': ([FIRST, 'PNT', 'DCT'], [], 3),
    'after a point': ([FIRST, 'PNT'], ['QNT'], 2),
    'after DCT': ([FIRST, 'PNT', 'DCT'], ['DCT', 'QNT'], 3),
    'before a level change': ([FIRST, 'PNT'], ['/', 'M082F330', 'QNT'], 2),
    'after a level change': ([FIRST, 'PNT', '/', 'M082F330'], ['QNT'], 2),
    'before STAY': ([FIRST, 'PNT'], ['STAY1', '/', '0130', 'QNT'], 2),
    'after STAY': ([FIRST, 'PNT', 'STAY1', '/', '0130'], ['QNT'], 2),
    'after C': ([FIRST, 'PNT', 'C'], ['QNT'], 3),
    'cruise climb': ([FIRST, 'PNT', 'C', '/'], ['/', 'M082F290F350', 'QNT'], 2),
    'cruise climb PLUS': ([FIRST, 'PNT', 'DCT', 'C', '/'], ['/', 'N0310F290PLUS', 'DCT', 'QNT'], 3),
    'after SID': ([FIRST, 'SID'], ['QNT'], 2),
    'before VFR': ([FIRST, 'PNT'], ['VFR', 'TXT', 'IFR', 'QNT', '/', FIRST], 2),
    'before SPEED/VFR': ([FIRST, 'PNT'], ['/', 'N0100VFR', 'TXT'], 2),
    'VFR to IFR': (['N0100VFR', 'TXT', 'IFR'], ['/', FIRST, 'QNT'], 2),
    'VFR to IFR to VFR': (['N0100VFR', 'TXT', 'IFR'], ['/', 'N0110VFR', 'TXT'], 2),
    'after GAT': ([FIRST, 'PNT', 'OAT', 'TXT', 'GAT'], ['QNT'], 3),
    'after IFPSTART': ([FIRST, 'PNT', 'IFPSTOP', 'TXT', 'IFPSTART'], ['QNT'], 3),
    'late in a long route': ([FIRST] + ['PNT', 'DCT'] * 15, ['DCT', 'QNT'], 31),
    'before T': ([FIRST, 'PNT', 'DCT'], ['T'], 3),
    'before STAR': ([FIRST, 'PNT', 'DCT'], ['STAR'], 3),
}
# the same with an error elsewhere in the field: (..., index of the error owned by the surroundings)
TROUBLED = {
    'after an unknown element': ([FIRST, 'PNT', 'Q1X9'], ['QNT'], 2),
    'after an unexpected slash': ([FIRST, 'PNT', 'Q1X9', '/'], ['QNT'], 2),
    'after a route': ([FIRST, 'PNT', 'UL613'], ['QNT'], 3),
    'at the start': ([], ['QNT'], None),
}
DEGS = {'deg': '##[NS]###[EW]', 'min': '####[NS]#####[EW]', 'deg+bd': '##[NS]###[EW]######',
        'min+bd': '####[NS]#####[EW]######'}
# in range (the last is the edge of the range)
GOOD = {'deg': ['[0-8]#[NS]0##[EW]', '[0-8]#[NS]1[0-7]#[EW]', '90[NS]180[EW]'],
        'min': ['[0-8]#[0-5]#[NS]0##[0-5]#[EW]', '[0-8]#[0-5]#[NS]1[0-7]#[0-5]#[EW]', '9000[NS]18000[EW]']}
BRG = ['[0-2]#####', '3[0-5]####', '360###']


def split(text, minutes):
    """(latitude digits, N/S, longitude digits, E/W, rest)"""
    n = 4 if minutes else 2
    return text[:n], text[n], text[n + 1:2 * n + 2 if not minutes else 10], text[6 if not minutes else 10], \
        text[(7 if not minutes else 11):]


def angle(c, digits, n):
    """Degrees of dd, ddd, ddmm or dddmm; n digits of whole degrees."""
    d = number(c, digits[:n])
    if len(digits) > n:
        return d + number(c, digits[n:]) / 60.0
    return d * 1.0


def decode(c, text, minutes):
    la, ns, lo, ew, rest = split(text, minutes)
    lat = angle(c, la, 2)
    lon = angle(c, lo, 3)
    lat = c.ite(ns == 'S', lat * -1.0, lat)
    lon = c.ite(ew == 'W', lon * -1.0, lon)
    return lat, lon


def too_big(c, digits, n, limit):
    """Does the angle exceed limit degrees, or have 60 minutes or more?"""
    d = number(c, digits[:n])
    if len(digits) == n:
        return d > limit
    m = number(c, digits[n:])
    return c.any(d > limit, m > 59, c.both(d == limit, m > 0))


def place(name):
    return PLACES[name] if name in PLACES else TROUBLED[name]


def position(c, text, minutes):
    """Where the point is on the earth: the lat/long, or what bearing and distance make of it."""
    lat, lon = decode(c, text, minutes)
    rest = split(text, minutes)[4]
    if len(rest) == 0:
        return lat, lon
    p = c.geo('Direct', lat, lon, number(c, rest[:3]) * 1.0, number(c, rest[3:]) * 1852.0)
    return p['lat2'], p['lon2']


def near(c, got, want, tol, label):
    c.check(c.abs_le(got - want, tol), label)
