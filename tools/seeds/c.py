seed('B31', 'P31', [('libzdb/namespace.c', "    namespace->maxsize = header.maxsize;\n", "    namespace->maxsize = (uint32_t) header.maxsize;\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    assert a.cmd('NSSET', 'n', 'maxsize', str(4 << 30)) == b'OK'
    assert b'data_limits_bytes: 4294967296' in a.cmd('NSINFO', 'n')
    s.stop()
    s.start()
    a = s.client()
    r = a.cmd('NSINFO', 'n')
    assert b'data_limits_bytes: 4294967296' in r, 'size limit lost: %r' % r
''', 'a size limit of 4 GB or more, and a restart', 'size limits are cut to 32 bits when the descriptor is read')

seed('B32', 'P31', [('libzdb/namespace.c', "    if(namespace->worm)\n        header.flags |= NS_FLAGS_WORM;", "    else if(namespace->worm)\n        header.flags |= NS_FLAGS_WORM;")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    assert a.cmd('NSSET', 'n', 'worm', '1') == b'OK'
    a.cmd('SELECT', 'n')
    assert a.cmd('SET', 'k', 'one') == b'k'
    s.stop()
    s.start()
    a = s.client()
    a.cmd('SELECT', 'n')
    assert isinstance(a.cmd('SET', 'k', 'two'), Err), 'worm mode lost'
    assert a.cmd('GET', 'k') == b'one'
''', 'worm mode of a public namespace, and a restart', 'worm flag of public namespaces not saved')

seed('B33', 'P12', [('libzdb/namespace.c', "    if(strchr(name, '/'))", "    if(strstr(name, \"../\"))")], '''
import os


def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'one') == b'OK'
    a.cmd('SELECT', 'one')
    a.cmd('SET', 'k', 'v')
    a.cmd('SELECT', 'default')
    # a namespace whose directory is inside of another one
    r = a.cmd('NSNEW', 'one/two')
    assert isinstance(r, Err), 'NSNEW one/two accepted'
    assert not os.path.exists(s.path('index', 'one', 'two'))
''', 'a namespace name with a slash which does not go up', 'names with slashes are accepted, namespaces are created inside of others')

seed('B34', 'P46', [('libzdb/index.c', "    for(uint32_t b = 0; b < buckets_branches; b++) {\n        if(!branches[b])\n            continue;\n\n        deleted", "    for(uint32_t b = 1; b < buckets_branches; b++) {\n        if(!branches[b])\n            continue;\n\n        deleted")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    assert a.cmd('NSSET', 'n', 'password', 'pw') == b'OK'
    assert a.cmd('NSSET', 'n', 'public', '0') == b'OK'
    assert a.cmd('SELECT', 'n', 'pw') == b'OK'
    k = zt.forge(b'key1', 0)
    assert a.cmd('SET', k, 'v') == k
    assert a.cmd('SET', 'x', 'v') == b'x'
    assert a.cmd('FLUSH') == b'OK'
    assert a.cmd('EXISTS', 'x') == 0, 'x survived FLUSH'
    assert a.cmd('EXISTS', k) == 0, 'a key survived FLUSH'
''', 'a key whose checksum falls in the first list of the index', 'FLUSH, NSDEL and RELOAD leave the keys of one list in memory')

seed('B35', 'P46', [('libzdb/index.c', "            previous = entry;\n            entry = entry->next;\n            continue;\n", "            if(!previous)\n                previous = entry;\n\n            entry = entry->next;\n            continue;\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    for n in 'ab':
        assert a.cmd('NSNEW', n) == b'OK'
    k = zt.collide(6)
    for n, i in (('a', 0), ('a', 1), ('a', 2), ('b', 3), ('a', 4)):
        assert a.cmd('SELECT', n) == b'OK'
        assert a.cmd('SET', k[i], 'v%d' % i) == k[i]
    assert a.cmd('SELECT', 'default') == b'OK'
    assert a.cmd('NSDEL', 'b') == b'OK'
    assert a.cmd('SELECT', 'a') == b'OK'
    for i in (0, 1, 2, 4):
        v = a.cmd('GET', k[i])
        assert v == b'v%d' % i, 'key %d of another namespace lost: %r' % (i, v)
''', 'several keys of another namespace in one list in front of a key of the deleted one', 'NSDEL and FLUSH of one namespace unlink keys of another')

seed('B36', 'P46', [('libzdb/index_branch.c', "    if(branch->last == entry)\n        branch->last = previous;\n\n    branch->length -= 1;", "    branch->length -= 1;\n\n    if(branch->last == entry && branch->length != 1)\n        branch->last = previous;")], '''
def demo(server):
    s = server()
    a = s.client()
    k = zt.collide(6)
    assert a.cmd('SET', k[0], 'v0') == k[0]
    assert a.cmd('SET', k[1], 'v1') == k[1]
    assert a.cmd('DEL', k[1]) == b'OK'
    for i in (2, 3):
        assert a.cmd('SET', k[i], 'v%d' % i) == k[i]
    for i in (0, 2, 3):
        v = a.cmd('GET', k[i])
        assert v == b'v%d' % i, 'key %d lost: %r' % (i, v)
''', 'two keys in one list, the newer one deleted, another one added', 'keys added to a list after a deletion are not linked')

seed('B37', 'P47', [('libzdb/namespace.c', "    for(size_t i = namespace->idlist + 1; i < nsroot->length; i++) {", "    for(size_t i = namespace->idlist + 1; i < nsroot->effective; i++) {")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    for n in 'abc':
        assert a.cmd('NSNEW', n) == b'OK'
    assert a.cmd('NSDEL', 'a') == b'OK'

    r = a.cmd('SELECT', 'c')
    assert r == b'OK', 'the last namespace is not found anymore: %r' % r
''', 'a namespace deleted which is not the last one created', 'the last namespaces are not found after another one was deleted')

seed('B38', 'P37', [('libzdb/index.c', "    root->stats.entries -= 1;\n    root->stats.datasize -= entry->length;\n    root->stats.size -= sizeof(index_entry_t) + entry->idlength;\n\n    // running in a mode without index, let's just skip this\n    if(root->branches == NULL)\n        return 0;\n", "    root->stats.entries -= 1;\n    root->stats.size -= sizeof(index_entry_t) + entry->idlength;\n\n    // running in a mode without index, let's just skip this\n    if(root->branches == NULL)\n        return 0;\n\n    root->stats.datasize -= entry->length;\n")], '''
def demo(server):
    s = server('--admin', 'root', mode='seq')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    assert a.cmd('NSSET', 'n', 'maxsize', '100') == b'OK'
    a.cmd('SELECT', 'n')
    k = a.cmd('SET', '', 'x' * 80)
    assert not isinstance(k, Err)
    assert a.cmd('DEL', k) == b'OK'
    assert b'data_size_bytes: 0' in a.cmd('NSINFO', 'n'), 'deleted data still counted'
    assert not isinstance(a.cmd('SET', '', 'y' * 80), Err)
''', 'a deletion in sequential mode', 'payloads deleted in sequential mode stay counted, the limit refuses new ones')

seed('B40', 'P13', [('zdbd/commands_dataset.c', "        zdb_log(\"[-] command: del: invalid key size\\n\");", "        zdb_log(\"[-] command: del: invalid key size\\n\");\n        if(client->request->argv[1]->length <= UINT16_MAX + 1)"),
                    ], '''
def demo(server):
    pass
''', '', '')
SEEDS.pop('B40')

seed('B40', 'P13', [('zdbd/commands_dataset.c', "    if(request->argv[1]->length > MAX_KEY_LENGTH) {\n        zdb_log(\"[-] command: del: invalid key size\\n\");", "    if((uint16_t) request->argv[1]->length > MAX_KEY_LENGTH) {\n        zdb_log(\"[-] command: del: invalid key size\\n\");")], '''
def demo(server):
    s = server()
    a = s.client()
    assert a.cmd('SET', 'k', 'v') == b'k'
    a.cmd('DEL', 'k' + 'x' * 65536)
    assert a.cmd('GET', 'k') == b'v', 'DEL of a long key deleted another one'
''', 'DEL with a key of 65537 bytes', 'long keys are truncated, DEL deletes another key')

seed('B41', 'P45', [('libzdb/data.c', "    if(root->dataid != dataid) {\n        // the requested datafile is not the current datafile opened", "    if((uint8_t) root->dataid != (uint8_t) dataid) {\n        // the requested datafile is not the current datafile opened"),
                    ("libzdb/data.c", "    if(root->dataid != dataid) {\n        close(fd);", "    if((uint8_t) root->dataid != (uint8_t) dataid) {\n        close(fd);")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('SET', 'old', 'old value') == b'old'
    for i in range(256):
        assert a.cmd('NSJUMP') == b'OK'
        assert a.cmd('SET', 'f%d' % i, 'new value') == b'f%d' % i
    v = a.cmd('GET', 'old')
    assert v == b'old value', 'payload of another record: %r' % v
''', 'a record 256 data files before the active one', 'the payload is read from the wrong data file')

seed('B42', 'P30', [('libzdb/index_set.c', "    exists->dataid = root->indexid;\n    exists->indexid = new->indexid;\n    exists->idxoffset = new->idxoffset;", "    exists->dataid = root->indexid;\n    exists->indexid = new->indexid;\n    if(new->length || exists->idxoffset > new->idxoffset)\n        exists->idxoffset = new->idxoffset;")], '''
def demo(server):
    s = server()
    a = s.client()
    assert a.cmd('SET', 'k', 'one') == b'k'
    assert a.cmd('SET', 'x', 'other') == b'x'
    assert a.cmd('SET', 'k', '') == b'k'
    assert a.cmd('SET', 'k', 'three') == b'k'
    h = a.cmd('HISTORY', 'k')
    assert h[2] == b'three', h
    h = a.cmd('HISTORY', 'k', h[0])
    assert h[2] == b'', 'the version before is %r' % h
''', 'an update with an empty payload followed by another update', 'memory keeps the position of the previous index record')

seed('B43', 'P18', [('zdbd/commands_namespace.c', "    redis_detach_clients(namespace);\n", "    if(namespace->index->stats.entries)\n        redis_detach_clients(namespace);\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    c = s.client()
    assert c.cmd('SELECT', 'n') == b'OK'
    assert a.cmd('NSDEL', 'n') == b'OK'
    # the session has to be back on the default namespace
    assert a.cmd('SET', 'k', 'v') == b'k'
    try:
        v = c.cmd('GET', 'k')
    except (EOFError, OSError):
        v = 'connection lost'
    assert s.alive(), 'server died'
    assert isinstance(v, Err) or v == b'v', 'session still on the deleted namespace: %r' % v
''', 'deleting an empty namespace which another session has selected', 'sessions keep a pointer to a released namespace')

seed('B44', 'P44', [('libzdb/index_loader.c', "            .flags = entry->flags,\n", "            .flags = entry->flags & ~entry->length,\n")], '''
def demo(server):
    s = server()
    a = s.client()
    for i in range(1, 5):
        assert a.cmd('SET', 'k%d' % i, 'x' * i) == b'k%d' % i
        assert a.cmd('DEL', 'k%d' % i) == b'OK'
    s.stop()
    s.start()
    a = s.client()
    for i in range(1, 5):
        assert a.cmd('EXISTS', 'k%d' % i) == 0, 'a deleted key is back'
''', 'a restart after deleting a key whose length has the bit of the deleted flag', 'deleted keys come back')
