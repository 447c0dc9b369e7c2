#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix: commits of /repo."""
import subprocess, os
FIX = {
    'N01': ['regions of gridded', 'packed profiles', 'filling missing', 'merging a shallow', 'bottom provinces that'],
    'N02': ['eigenverb files could'],
 'S01': ['reverse iteration', 'find_nearest read', 'automatic choice of sequence', 'undefined conversions in the index', 'augmented ray fans', 'increment of one element log'],
 'W01': ['great circle', 'local direction to a point', 'geocentric direction', 'area of degenerate'],
 'W02': ['setting one angle', 'pitch of straight up'],
 'U01': ['copysign', 'seeding a random'],
 'O01': ['interpolating one grid from several threads'],
 'G01': ['nearest interpolation read', 'interpolation type was not', 'pchip ', 'derivatives of inner'],
 'A01': ['beam levels', 'numeric directivity', 'sum of beam', 'azimuths of solid', 'baffled beam', 'directivity of pistons', 'line and planar'],
 'A02': ['Kaiser', 'transmit signals'],
 'E01': ['totals of targets', 'incoherent eigenray', 'dead reckon'],
 'R01': ['Rayleigh bottom'],
 'B01': ['sloped boundaries kept', 'missing or truncated text', 'short text profiles'],
 'P01': ['gridded profiles left', 'flat earth option', 'text profiles with blank'],
 'T01': ['tasks created', 'abort and done', 'destroying a thread pool', 'tasks dropped', 'first use of the thread'],
 'M01': ['update listeners'],
 'E03': ['overlap of patches'],
 'E02': ['counting patches', 'patches of scattering', 'memory leak for every', 'patches of the first ray'],
 'Q02': ['restart of a ray'],
 'Q03': ['a fan of azimuths', 'targets on the other side', 'arrival azimuth of'],
 'Q04': ['Gaussian beams next to', 'widths of Gaussian', 'eigenrays with undefined', 'width of a Gaussian', 'classic ray spreading', 'boundary losses and phases'],
 'L01': ['motion of a platform', 'platforms kept pointing', 'first use of the platform', 'a body vector without'],
 'L02': ['removing a receiver left', 'first use of the sensor manager', 'removing a sensor could deadlock'],
 'L03': ['adding a sensor could', 'wavefront listeners', 'aborted computations leaked', 'computation of a wavefront', 'a replaced wavefront', 'paths computed from the receiver', 'replaced overlaps', 'beams and update flags', 'overlaps crashed'],
 'V01': ['reverberation ', 'all pulses of a schedule'],
 'G02': ['fast bathymetry', 'slopes of fast bathymetry', 'fast sound speed', 'slope of fast sound'],
}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = os.path.join(ROOT, 'known_findings.txt')
old = [l for l in open(k).read().splitlines() if l and not l.startswith('fixed:')] if os.path.exists(k) else []
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [p for p, v in FIX.items() if any(s.startswith(x) for x in v)]
    if len(p) != 1:
        print('unmapped', h, s, p)
        continue
    out.append(f'fixed: property={p[0]} {h} {s}')
open(k, 'w').write('\n'.join(old + out) + '\n')
