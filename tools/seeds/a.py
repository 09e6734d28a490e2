seed('B01', 'P03', [('libzdb/data.c', "    if(response != (ssize_t) length) {\n        zdb_logerr", "    if(response == 0 && length > 0) {\n        zdb_logerr")], '''
def demo(server):
    # the data file may not grow past 4096 bytes: the payload write of the last SET is cut short
    s = server(fsize=4096)
    c = s.client()
    assert c.cmd('SET', 'a', 'x' * 100) == b'a'
    r = c.cmd('SET', 'b', 'y' * 8000)
    assert isinstance(r, Err), 'a record cut short was acknowledged: %r' % r
''', 'a write() that stores only a part of the payload (file size limit, full disk)', 'a short payload write is taken as complete and acknowledged')

seed('B02', 'P05', [('libzdb/index_set.c', """    previous->flags |= INDEX_ENTRY_DELETED;

    index_set_t updated = {
        .entry = previous,
        .id = set->id,
    };

    if(index_append_entry_on_disk(root, &updated)) {
        zdb_debug("[-] index: update entry failed: could not write on disk\\n");
        return NULL;
    }

    // overwrite original object
    // with the latest data (the new one, basicly)
    set->entry->parentid = root->indexid;
    set->entry->parentoff = previous->idxoffset;

    // since we added a new entry on the index, the next id needs
    // to be incremented to skip this position in the futur
    root->nextid += 1;
    root->nextentry += 1;

    if(index_seq_overwrite(root, set)) {
        zdb_debug("[-] index: update entry failed: could not overwrite original entry\\n");
        return NULL;
    }
""", """    previous->flags |= INDEX_ENTRY_DELETED;

    index_set_t updated = {
        .entry = previous,
        .id = set->id,
    };

    // overwrite original object
    // with the latest data (the new one, basicly)
    // the previous version goes at the end of the current file
    set->entry->parentid = root->indexid;
    set->entry->parentoff = lseek(root->indexfd, 0, SEEK_END);

    if(index_seq_overwrite(root, set)) {
        zdb_debug("[-] index: update entry failed: could not overwrite original entry\\n");
        return NULL;
    }

    if(index_append_entry_on_disk(root, &updated)) {
        zdb_debug("[-] index: update entry failed: could not write on disk\\n");
        return NULL;
    }

    // since we added a new entry on the index, the next id needs
    // to be incremented to skip this position in the futur
    root->nextid += 1;
    root->nextentry += 1;
""")], '''
def demo(server):
    import os, tempfile
    d = tempfile.mkdtemp(prefix='zdbdemo')
    try:
        so = zt.preload('fault.c', d)
        for nth in (1, 2):
            s = server(mode='seq', preload=so, env={'ZFAULT': os.path.join(d, 'plan')})
            c = s.client()
            k = c.cmd('SET', '', 'old')
            open(os.path.join(d, 'plan'), 'w').write('fail default/i0 %d' % nth)
            r = c.cmd('SET', k, 'new')
            os.unlink(os.path.join(d, 'plan'))
            assert isinstance(r, Err), 'failed index write %d acknowledged' % nth
            v = c.cmd('GET', k)
            assert v == b'old', 'update reported as failed but the old version is gone: %r' % v
    finally:
        import shutil
        shutil.rmtree(d)
''', 'a failure (or crash) of the second index write of a sequential update', 'the stored record is rewritten before its previous version was appended')

seed('B03', 'P04', [('libzdb/data.c', "source->data, source->datalength, 1, root)", "source->data, source->datalength, source->datalength > 0, root)")], '''
def demo(server):
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix='zdbdemo')
    try:
        so = zt.preload('fault.c', d)
        s = server('--sync', preload=so, env={'ZFAULT': os.path.join(d, 'plan')})
        c = s.client()
        c.cmd('SET', 'k', 'v')
        open(os.path.join(d, 'plan'), 'w').write('log x 1')
        assert c.cmd('DEL', 'k') == b'OK'
        os.unlink(os.path.join(d, 'plan'))
        ev = [l.split() for l in open(os.path.join(d, 'plan.log'))]
        w = [i for i, e in enumerate(ev) if e[0] == 'write' and e[1].endswith('/d0')]
        f = [i for i, e in enumerate(ev) if e[0] == 'fsync' and e[1].endswith('/d0')]
        assert w and f and max(f) > max(w), 'deletion record not synced before the reply: %s' % ev
    finally:
        shutil.rmtree(d)
''', 'power loss right after an acknowledged DEL (or SET of an empty value) with --sync', 'records without payload are not synced')

seed('B04', 'P07', [('zdbd/commands_dataset.c', """    if(namespace_is_frozen(client->ns))
        return command_error_frozen(client);

    zdbd_debug("[+] command: keytime: lookup key: ");
    zdbd_debughex(request->argv[1]->buffer, request->argv[1]->length);

    index_root_t *index = client->ns->index;
    index_entry_t *entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length);

    // key not found at all
    if(!entry) {
        zdbd_debug("[-] command: keytime: key not found\\n");
        redis_hardsend(client, "$-1");
        return 1;
    }
""", """    zdbd_debug("[+] command: keytime: lookup key: ");
    zdbd_debughex(request->argv[1]->buffer, request->argv[1]->length);

    index_root_t *index = client->ns->index;
    index_entry_t *entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length);

    // key not found at all
    if(!entry) {
        zdbd_debug("[-] command: keytime: key not found\\n");
        redis_hardsend(client, "$-1");
        return 1;
    }

    if(namespace_is_frozen(client->ns))
        return command_error_frozen(client);
""")], '''
def demo(server):
    s = server()
    c = s.client()
    c.cmd('SET', 'k', 'v')
    assert c.cmd('NSSET', 'default', 'freeze', '1') == b'OK'
    for k in ('k', 'missing'):
        r = c.cmd('KEYTIME', k)
        assert isinstance(r, Err), 'a frozen namespace answers KEYTIME %s: %r' % (k, r)
''', 'KEYTIME of a key that does not exist on a frozen namespace', 'a frozen namespace tells which keys exist')

seed('B05', 'P08', [('zdbd/commands_set.c', "if(entry && client->ns->worm) {", "if(floating && client->ns->worm) {")], '''
def demo(server):
    s = server()
    c = s.client()
    c.cmd('NSNEW', 'w')
    c.cmd('NSSET', 'w', 'worm', '1')
    c.cmd('SELECT', 'w')
    assert c.cmd('SET', 'full', 'v') == b'full'
    assert isinstance(c.cmd('SET', 'full', 'v2'), Err)
    assert c.cmd('SET', 'empty', '') == b'empty'
    r = c.cmd('SET', 'empty', 'changed')
    assert isinstance(r, Err), 'worm entry overwritten: %r' % r
''', 'an existing entry with an empty value in a worm namespace', 'worm entries whose value is empty can be overwritten')

seed('B06', 'P09', [('zdbd/commands_namespace.c', """    char value[COMMAND_MAXLEN];

    if(!command_admin_authorized(client))
        return 1;

    if(!command_args_validate(client, 4))
        return 1;
""", """    char value[COMMAND_MAXLEN];

    // everybody can restrict the namespace in use, everything else
    // is reserved to the admin
    if(request->argc != 4 || !client->ns || !client->writable || request->argv[1]->length != (int) strlen(client->ns->name)) {
        if(!command_admin_authorized(client))
            return 1;
    }

    if(!command_args_validate(client, 4))
        return 1;
""")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    assert a.cmd('AUTH', 'root') == b'OK'
    a.cmd('NSNEW', 'alpha')
    a.cmd('NSNEW', 'gamma')
    c = s.client()
    assert c.cmd('SELECT', 'alpha') == b'OK'
    for ns in ('alpha', 'gamma', 'default'):
        r = c.cmd('NSSET', ns, 'lock', '1')
        assert isinstance(r, Err), 'settings of %s changed without admin rights: %r' % (ns, r)
''', 'a client without admin rights whose namespace name has the same length as the target', 'NSSET accepted from a client that is not an administrator')

seed('B07', 'P10', [('zdbd/commands_namespace.c', "if(client->master && namespace->password)", "if((client->master || client->mirror) && namespace->password)")], '''
def demo(server):
    s = server()
    c = s.client()
    c.cmd('NSNEW', 'p')
    c.cmd('NSSET', 'p', 'password', 'topsecretword')
    m = s.client()
    m.cmd('MIRROR')
    m.send('NSINFO', 'p')
    m.b = m.pending(1)
    assert b'topsecretword' not in m.b, 'password disclosed to a session that is not a master'
''', 'NSINFO sent on a MIRROR session', 'the stored password is shown to mirror sessions')

seed('B08', 'P16', [('zdbd/commands_get.c', "    for(int i = 1; i < request->argc; i++) {\n        command_get_single(", "    for(int i = 1; i < request->argc; i++) {\n        // nothing to look up for an empty key\n        if(request->argv[i]->length == 0)\n            continue;\n\n        command_get_single(")], '''
def demo(server):
    s = server()
    c = s.client()
    c.cmd('SET', 'k', 'v')
    c.send('MGET', 'k', '', 'k')
    c.send('PING')
    try:
        r = c.reply()
        p = c.reply()
    except OSError as e:
        assert False, 'no complete answer: %s' % e
    assert isinstance(r, list) and len(r) == 3 and p == b'PONG', 'replies out of step: %r %r' % (r, p)
''', 'MGET with an empty key among its arguments', 'the array reply has fewer elements than announced')

seed('B09', 'P01', [('libzdb/data.c', """    zdb_debug("[+] data: entries read: %d, last offset: %lu\\n", entries, root->previous);
""", """    // last record is a deletion, drop what was partially written after
    off_t expected = root->previous + sizeof(data_entry_header_t) + header.datalength;

    if(entries > 0 && (header.flags & DATA_ENTRY_DELETED) && lseek(root->datafd, 0, SEEK_END) > expected) {
        if(ftruncate(root->datafd, expected) < 0)
            zdb_warnp(root->datafile);
    }

    zdb_debug("[+] data: entries read: %d, last offset: %lu\\n", entries, root->previous);
""")], '''
def demo(server):
    s = server()
    c = s.client()
    c.cmd('SET', 'key-one', 'first value')
    c.cmd('SET', 'key-two', 'second value')
    c.cmd('DEL', 'key-one')
    before = open(s.path('data', 'default', 'd0'), 'rb').read()
    s.stop()
    s.start()
    c = s.client()
    after = open(s.path('data', 'default', 'd0'), 'rb').read()
    assert after[:len(before)] == before, 'the data file was cut by a restart'
    assert c.cmd('GET', 'key-two') == b'second value'
''', 'a restart while the last record is a deletion', 'the last bytes of the data file are cut off when it is opened')

seed('B10', 'P02', [('zdbd/commands_dataset.c', """    // update data file, flag entry deleted
    if(!data_delete(data, entry->id, entry->idlength, timestamp)) {
        zdbd_debug("[-] command: del: deleting data failed\\n");
        redis_hardsend(client, "-Cannot delete key (data)");
        return 0;
    }

    // mark index entry as deleted
    if(index_entry_delete(index, entry)) {
        zdbd_debug("[-] command: del: index delete flag failed\\n");
        redis_hardsend(client, "-Cannot delete key (index)");
        return 0;
    }
""", """    // keep key for the data file, entry is released with the index
    uint8_t idlength = entry->idlength;
    unsigned char id[MAX_KEY_LENGTH];
    memcpy(id, entry->id, idlength);

    // mark index entry as deleted
    if(index_entry_delete(index, entry)) {
        zdbd_debug("[-] command: del: index delete flag failed\\n");
        redis_hardsend(client, "-Cannot delete key (index)");
        return 0;
    }

    // update data file, flag entry deleted
    if(!data_delete(data, id, idlength, timestamp)) {
        zdbd_debug("[-] command: del: deleting data failed\\n");
        redis_hardsend(client, "-Cannot delete key (data)");
        return 0;
    }
""")], '''
def demo(server):
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix='zdbdemo')
    try:
        so = zt.preload('fault.c', d)
        s = server(preload=so, env={'ZFAULT': os.path.join(d, 'plan')})
        c = s.client()
        c.cmd('SET', 'k', 'v')
        open(os.path.join(d, 'plan'), 'w').write('fail default/d0 1')
        r = c.cmd('DEL', 'k')
        os.unlink(os.path.join(d, 'plan'))
        assert isinstance(r, Err)
        assert c.cmd('GET', 'k') == b'v', 'the index was changed although the data record could not be written'
    finally:
        shutil.rmtree(d)
''', 'a data write that fails during DEL (or a crash between the two writes)', 'DEL changes the index before the data record is written')
