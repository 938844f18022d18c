#!/usr/bin/env python3
"""Writes known_findings.txt (run by hand when a fix is added; no check writes it)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
30d429d C19,C02,C29|the spline was read (uninitialised) by iterators and lookups when binary search is configured
f3aa736 C14|spline corridors and estimates overflowed for wide or dense keys, the interval excluded the key's page
3c757b3 C28,C19|cleanSpline read and searched beyond the spline's points
d6a21c1 C01,C23,C05|read buffers kept returning pages that had been rewritten or reclaimed meanwhile
00046bf C24,C01|the spline search's buffered-page shortcut compared physical with logical page ids (wrong page used and wrong hit counts after wraparound)
2f9c2e2 C10|embedDBNextVar returned wrong or no variable data for records still in the write buffer
ec7ea55 C10,C07|pages with 128 or more records were searched or iterated with a negative (8-bit) record number
b4b672e C10,C20|embedDBGetVar without EMBEDDB_USE_VDATA dereferenced a missing buffer
9cef238 C30|page minimum and maximum overlapped the bitmap in the page header
9e30d79 C01,C19|record and header sizes above 127 bytes were truncated to 8 bits
aaddf2e C04|the key order check compared with the wrong record when the last page on storage was partially filled
de3d98c C20|page ids were consumed by writes that failed, leaving unreadable pages in the retained range
a283641 C11|the maximum key of a reclaimed variable-data block was read after the block had been erased
4c41324 C20,C12,C09,C10,C13|a put or flush that failed half way left a record without variable data, or lost records of the write buffer
201ee61 C06,C09|record-level consistency erased blocks it did not own or still needed
e2cd8c8 C19|the estimated record location was converted from a float outside the integer range
2b9c1c4 C26,C19|comparators subtracted (overflow, truncation) and bitmap helpers lost values at bucket edges and read unaligned values
f158f77 C03,C13|index entries were looked up for the wrong data page once pages had been flushed early or the index had wrapped
5709297 C23|an open iterator failed or stopped when the pages ahead of it were reclaimed
e0133cb C13,C06|recovery of a wrapped, erased or stale index file chose wrong first and next pages
21547b5 C08,C31,C06|recovery of variable data with erased blocks or key zero chose wrong pages
8f95552 C08,C09,C05,C06|recovery of wrapped data files with erased blocks or temporary pages lost acknowledged records
3b9692b C02,C29,C19|binary search left the stored pages or never returned for keys on no page
4599936 C10|reading a variable value over several pages returned page headers as data
9561cbf C24,C28|statistics were not reset when initialising with variable data
85aebdf C12|an erased first block of variable data (one-page blocks) was taken for the end of the data
8af6426 C27|the desktop file interface reported failed accesses as successful and wrapped at 4 GB
13ea27d C27|the SD file interface reported failed accesses as successful
0cf2130 C14|page estimates between two spline points overflowed
1edff3b C18|a schema whose creation failed was leaked
25f9060 C16,C19|sums and averages of signed 5-8 byte columns were sign-extended or divided wrongly
97406a5 C18|closing an aggregate lost its input, the rest of the chain leaked
18a047c C18|the state of min and max aggregates was only partly released
4112983 C17|a key join continued with stale rows after one input had run out
b7ca019 C21|configurations with too small files, pages or buffers were accepted
50f1e06 C20,C21,C18|a failed embedDBInit left files open and memory allocated
fff02bc C20,C09|a temporary page whose write failed was skipped, recovery then missed later acknowledged records
a523c12 C27|a failed truncation when creating an SD file was reported as success
bda8f88 C06,C13|an erased index page was taken for the oldest page of a wrapped index
26eff2c C20,C32|a failed flush of the data, index or variable data file was not reported
a2a87c7 C32|variable, data or index pages written before their buffer became empty were not flushed by embedDBFlush
9fdf588 C32|with record-level consistency a put was acknowledged without flushing its page, and blocks were erased before the page replacing them was flushed
49b2c65 C32|index pages reached the storage before the data pages they describe, after losing those the new pages were filtered with stale bitmaps
62bf267 C07,C13,C08|erased pages filled with one byte value were taken for data during recovery
4b14189 C19|the example program read a record of 8 bytes into a buffer of 3
831509d C20,C18,C21|the variable data file stayed open when its recovery failed
de28a30 C20|a failed erase of the first variable data block during recovery was not reported
"""
with open(V + "/known_findings.txt", "w") as f:
    f.write("# Genuine defects found by the checks. `fixed:` lines document repairs and suppress nothing; `known:` lines (none at present)\n# would name findings that are recorded rather than repaired, see known_findings.py.\n")
    for l in FIXED.strip().splitlines():
        head, what = l.split("|")
        c, ps = head.split()
        for p in ps.split(","):
            f.write("fixed: property=%s %s %s\n" % (p, c, what))
