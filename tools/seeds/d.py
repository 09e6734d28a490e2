seed('B45', 'P48', [('libzdb/index_scan.c', "        if(source.previous >= current) {\n            zdb_debug(\"[+] index rscan: previous-header: previous offset (%u) in previous file", "        if(source.previous > current) {\n            zdb_debug(\"[+] index rscan: previous-header: previous offset (%u) in previous file")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('SET', 'a', '1') == b'a'
    a.cmd('NSJUMP')
    assert a.cmd('SET', 'b', '2') == b'b'
    r = a.cmd('RSCAN')
    k = [x[0] for x in r[1]]
    assert k == [b'b', b'a'], 'RSCAN: %r' % k[:5]
''', 'an index file with a single record, followed by another file', 'the link to the only record of the file before is followed in the newer file')

seed('B46', 'P49', [('zdbd/commands_scan.c', "    scaninfo = &scanlist->scansinfo[scanlist->length - 1];", "    scaninfo = &scanlist->scansinfo[(scanlist->length - 1) % 32];")], '''
def demo(server):
    s = server()
    a = s.client()
    keys = [b'k%04d' % i for i in range(45)]
    for k in keys:
        assert a.cmd('SET', k, 'v') == k
    r, got = a.cmd('SCAN'), []
    for _ in range(100):
        if isinstance(r, Err):
            break
        got += [x[0] for x in r[1]]
        r = a.cmd('SCAN', r[0])
    assert isinstance(r, Err) and 'No more' in str(r), r
    assert got == keys, 'SCAN answered %d records' % len(got)
''', 'more than 32 records in one listing', 'the cursor of a long listing is the place of an earlier record')

seed('B47', 'P39', [('libzdb/index.c', "    entry->indexid = key->fileid;\n", "    entry->indexid = root->indexid;\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    for k in (b'a', b'b', b'c'):
        assert a.cmd('SET', k, b'v' + k) == k
    a.cmd('NSJUMP')
    for k in (b'd', b'e', b'f'):
        assert a.cmd('SET', k, b'v' + k) == k
    c = a.cmd('KEYCUR', 'a')
    r = a.cmd('SCAN', c)
    k = [x[0] for x in r[1]]
    assert k == [b'b', b'c', b'd', b'e', b'f'], k
''', 'a cursor of a record in an older index file', 'the walk starts in the active file whatever file the cursor names')

seed('B48', 'P39', [('zdbd/commands_history.c', "    ekey.indexid = item->parentid;\n", "    if(item->parentid)\n        ekey.indexid = item->parentid;\n\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('SET', 'k', 'one') == b'k'
    a.cmd('NSJUMP')
    assert a.cmd('SET', 'k', 'two') == b'k'
    assert a.cmd('SET', 'k', 'six') == b'k'
    r, got = a.cmd('HISTORY', 'k'), []
    for _ in range(5):
        if isinstance(r, Err):
            break
        got.append(r[2])
        if r[0] is None:
            break
        r = a.cmd('HISTORY', 'k', r[0])
    assert got == [b'six', b'two', b'one'], '%r %r' % (got, r)
''', 'a key whose second last version lies in a newer file than the one before', 'the cursor of HISTORY keeps the newer file')

seed('B49', 'P48', [('libzdb/index_scan.c', "            fileid += 1;\n            scan.fileid = fileid;", "            fileid += 1;")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    for k in (b'a', b'b', b'c'):
        assert a.cmd('SET', k, b'v' + k) == k
    a.cmd('NSJUMP')
    assert a.cmd('SET', 'd', 'vd') == b'd'
    r = a.cmd('SCAN')
    assert [x[0] for x in r[1]] == [b'a', b'b', b'c', b'd'], r[1]
    r = a.cmd('SCAN', r[0])
    assert isinstance(r, Err) and 'No more' in str(r), r
''', 'a listing which ends in a newer file than it started in', 'the file number of records after the end of a file is the one of the file before')

seed('B50', 'P27', [('libzdb/bootstrap.c', "    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)\n        return NULL;", "    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0 && zdb_settings->indexlock < 0)\n        return NULL;")], '''
import os


def demo(server):
    s = server()
    a = s.client()
    assert a.cmd('SET', 'k', 'v') == b'k'
    os.mkdir(s.path('two'))
    try:
        t = server('--data', s.path('data'), keep=s.path('two'))
    except Err:
        return
    raise AssertionError('two servers work on the same data directory')
''', 'a second server with the same data directory and an index directory of its own', 'the lock of the data directory is ignored when the one of the index directory is held')
