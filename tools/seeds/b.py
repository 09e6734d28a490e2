seed('B11', 'P06', [('zdbd/commands_dataset.c', "    if(!client->writable) {", "    if(request->argc == 2 && !client->writable) {")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    assert a.cmd('AUTH', 'root') == b'OK'
    assert a.cmd('NSNEW', 'n') == b'OK'
    assert a.cmd('NSSET', 'n', 'password', 'pw') == b'OK'
    assert a.cmd('SELECT', 'n', 'pw') == b'OK'
    assert a.cmd('SET', 'k', 'v') == b'k'
    c = s.client()
    assert c.cmd('AUTH', 'root') == b'OK'
    assert c.cmd('SELECT', 'n') == b'OK'
    c.cmd('DEL', 'k', '1500000000')
    assert a.cmd('GET', 'k') == b'v', 'a read-only session deleted a key'
''', 'DEL with its optional timestamp from a session which only has read access', 'write permission not checked on one form of DEL')

seed('B12', 'P07', [('zdbd/commands_history.c', "    if(namespace_is_frozen(client->ns))", "    if(client->request->argc == 2 && namespace_is_frozen(client->ns))")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    a.cmd('SELECT', 'n')
    a.cmd('SET', 'k', 'one')
    a.cmd('SET', 'k', 'two')
    h = a.cmd('HISTORY', 'k')
    assert a.cmd('NSSET', 'n', 'freeze', '1') == b'OK'
    r = a.cmd('HISTORY', 'k', h[0])
    assert isinstance(r, Err), 'history of a frozen namespace answered: %r' % r
''', 'HISTORY with a cursor obtained before the namespace was frozen', 'frozen namespace still read through HISTORY cursors')

seed('B13', 'P11', [('zdbd/commands_namespace.c', "            writable = 0;", "            writable = (client->ns == namespace || client->ns->password) ? client->writable : 0;")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    for n in 'ab':
        assert a.cmd('NSNEW', n) == b'OK'
        assert a.cmd('NSSET', n, 'password', 'pw' + n) == b'OK'
    c = s.client()
    assert c.cmd('SELECT', 'a', 'pwa') == b'OK'
    assert c.cmd('SELECT', 'b') == b'OK'
    r = c.cmd('SET', 'k', 'v')
    assert isinstance(r, Err), 'written without the password of the namespace: %r' % r
''', 'SELECT of a public protected namespace without password, from a session which wrote to another protected one', 'write access of one namespace kept when switching to another')

seed('B14', 'P13', [('zdbd/commands_scan.c', "    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {", "    if((int8_t) client->request->argv[1]->length > MAX_KEY_LENGTH) {")], '''
def demo(server):
    pass
''', '', '')
SEEDS.pop('B14')

if 0: seed('B15', 'P14', [('zdbd/redis.c', "        if(available == needed) {", "        if(available <= needed + 1) {")], '''
def demo(server):
    import time
    s = server()
    c = s.client()
    q = c.enc(['SET', 'k', 'v' * 40])
    n = c.enc(['PING'])
    # the first byte of the next request comes with the end of the previous one
    c.raw(q + n[:1])
    assert c.reply() == b'k'
    time.sleep(0.1)
    c.raw(n[1:])
    assert c.reply() == b'PONG', 'request split after its first byte is lost'
    c.raw(q[:-12])
    time.sleep(0.1)
    c.raw(q[-12:] + n[:1])
    assert c.reply() == b'k'
    time.sleep(0.1)
    c.raw(n[1:])
    assert c.reply() == b'PONG', 'request split after its first byte is lost'
''', 'a segment which ends exactly one byte after the end of a request whose payload was fragmented', 'one byte of the next request is dropped')

seed('B16', 'P15', [('zdbd/commands_namespace.c', """    if(!command_args_namespace(client, 1))
        return 1;

    // get name as usable string
    sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);

    // checking for existing namespace
    if(!(namespace = namespace_get(target))) {
        zdbd_debug("[-] command: select""", """    if(request->argc == 2 && !command_args_namespace(client, 1))
        return 1;

    // get name as usable string
    sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);

    // checking for existing namespace
    if(!(namespace = namespace_get(target))) {
        zdbd_debug("[-] command: select""")], '''
def demo(server):
    s = server()
    c = s.client()
    c.send('SELECT', 'n' * 4000, 'password')
    try:
        r = c.reply()
    except (EOFError, ConnectionError):
        r = None
    assert s.alive() and isinstance(r, Err), 'server crashed on a long namespace name'
    d = s.client()
    assert d.cmd('PING') == b'PONG'
''', 'SELECT with a password and a name longer than the buffer', 'stack buffer overflow in SELECT')

seed('B17', 'P17', [('zdbd/redis.c', "if(errno != EAGAIN) {", "if(errno != EAGAIN || response->length < 64) {")], '''
def demo(server):
    import time
    s = server()
    c = s.client()
    n = 20000
    # replies are left unread until the socket is full of small ones, the next ones are queued
    for i in range(n // 100):
        c.raw(c.enc(['EXISTS', 'k']) * 99 + c.enc(['PING']))
    time.sleep(0.5)
    for i in range(n // 100):
        for j in range(99):
            r = c.reply()
            assert r == 0, 'reply lost: %r' % r
        r = c.reply()
        assert r == b'PONG', 'reply lost: %r' % r
        if i % 7 == 0:
            time.sleep(0.01)
    assert c.pending() == b''
''', 'a client slower than the server, with small replies at the head of the queue when the socket is full', 'small pending replies are dropped when the socket is full')

seed('B18', 'P18', [('zdbd/redis.c', "            clients.list[i]->ns = NULL;\n", "            clients.list[i]->ns = NULL;\n            break;\n")], '''
def demo(server):
    s = server('--admin', 'root')
    a = s.client()
    a.cmd('AUTH', 'root')
    assert a.cmd('NSNEW', 'n') == b'OK'
    cs = [s.client() for _ in range(3)]
    for c in cs:
        assert c.cmd('SELECT', 'n') == b'OK'
    assert a.cmd('NSDEL', 'n') == b'OK'
    for i in range(40):
        a.cmd('NSNEW', 'filler%d' % i)
    for c in cs:
        c.send('SET', 'k', 'v')
        try:
            r = c.reply()
        except (EOFError, ConnectionError):
            r = Err('closed')
        assert isinstance(r, Err), 'session still works on a deleted namespace: %r' % r
    assert s.alive(), 'server crashed'
''', 'two sessions or more on a namespace which is deleted', 'only one session is detached, others keep a pointer to a released namespace')

seed('B19', 'P19', [('zdbd/redis.c', "if(value == RESP_STATUS_DONE || value == RESP_STATUS_SHUTDOWN)", "if(value == RESP_STATUS_DONE)")], '''
def demo(server):
    pass
''', '', '')
SEEDS.pop('B19')

if 0: seed('B20', 'P20', [('zdbd/commands.c', "        if(command_match(key, &commands_handlers[i])) {\n            handler =", "        if(strncasecmp(key->buffer, commands_handlers[i].command, strlen(commands_handlers[i].command)) == 0) {\n            handler =")], '''
def demo(server):
    s = server()
    c = s.client()
    r = c.cmd('WAIT', 'SETTINGS', '1')
    assert isinstance(r, Err), 'unknown command accepted by WAIT: %r' % r
''', 'WAIT on a name which begins with the name of another command', 'WAIT listens to a command which was not named')

seed('B22', 'P38', [('libzdb/index_get.c', "    index_reusable_entry->flags = item->flags;", "    index_reusable_entry->flags = item->flags & ~INDEX_ENTRY_DELETED;")], '''
def demo(server):
    s = server(mode='seq')
    c = s.client()
    k = c.cmd('SET', '', 'v')
    assert c.cmd('DEL', k) == b'OK'
    assert c.cmd('GET', k) is None, 'deleted record answered'
    assert c.cmd('EXISTS', k) == 0
''', 'sequential mode', 'deleted flag of a sequential record is lost when it is looked up')

seed('B23', 'P43', [('libzdb/index.c', "if(memcmp(entry->id, id, idlength) == 0)", "if(memcmp(entry->id, id, idlength > 32 ? 32 : idlength) == 0)")], '''
def demo(server):
    import random
    s = server()
    c = s.client()
    rnd = random.Random(5)
    # enough keys with the same beginning and length for some to share a branch (hash collision)
    keys = [b'a' * 40 + b'%016x' % rnd.getrandbits(64) for _ in range(24000)]
    for i in range(0, len(keys), 500):
        c.raw(b''.join(c.enc(['SET', k, b'v' + k[-16:]]) for k in keys[i:i + 500]))
        for k in keys[i:i + 500]:
            assert c.reply() == k
    for i in range(0, len(keys), 500):
        c.raw(b''.join(c.enc(['GET', k]) for k in keys[i:i + 500]))
        for k in keys[i:i + 500]:
            v = c.reply()
            assert v == b'v' + k[-16:], 'value of another key: %r' % v
''', 'two keys longer than 32 bytes with the same beginning and length which fall in the same branch', 'only the beginning of long keys is compared')

seed('B24', 'P44', [('libzdb/index_loader.c', "            .parentoff = entry->parentoff,\n", "")], '''
def demo(server):
    s = server()
    c = s.client()
    for v in ('one', 'two', 'three'):
        assert c.cmd('SET', 'k', v) == b'k'
    h = c.cmd('HISTORY', 'k')
    s.kill()
    s.start()
    c = s.client()
    g = c.cmd('HISTORY', 'k')
    assert g == h, 'history changed by a restart: %r then %r' % (h, g)
    got = []
    while True:
        got.append(g[2])
        if g[0] is None or len(got) > 5:
            break
        g = c.cmd('HISTORY', 'k', g[0])
    assert got == [b'three', b'two', b'one'], got
''', 'restart, then HISTORY of a key with several versions', 'the position of the previous version is not loaded from the index')

seed('B26', 'P45', [('zdbd/commands_dataset.c', """entry->length);

    redis_reply_stack(client, response, strlen(response));

    return 0;
}

int command_keytime""", """entry->length + (entry->parentoff ? 0 : entry->idlength / 128));

    redis_reply_stack(client, response, strlen(response));

    return 0;
}

int command_keytime""")], '''
def demo(server):
    s = server()
    c = s.client()
    for n in (1, 127, 128, 200, 255):
        c.cmd('SET', 'k' * n, 'value')
        r = c.cmd('LENGTH', 'k' * n)
        assert r == 5, 'length of a payload of 5 bytes with a key of %d: %r' % (n, r)
''', 'keys of 128 bytes or more', 'LENGTH wrong for long keys')

seed('B27', 'P16', [('zdbd/commands_dataset.c', """        redis_hardsend(client, "-Cannot delete key (index)");
        return 0;""", """        redis_hardsend(client, "-Cannot delete key (index)");""")], '''
def demo(server):
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix='zdbdemo')
    try:
        so = zt.preload('fault.c', d)
        s = server(preload=so, env={'ZFAULT': os.path.join(d, 'plan')})
        c = s.client()
        for n in (1, 2):
            c.cmd('SET', 'k', 'v')
            open(os.path.join(d, 'plan'), 'w').write('fail default/i0 %d' % n)
            c.cmd('DEL', 'k')
            os.unlink(os.path.join(d, 'plan'))
            assert c.pending() == b'', 'second reply to one request: %r' % c.b
            assert c.cmd('PING') == b'PONG'
    finally:
        shutil.rmtree(d)
''', 'a failure of the index write of DEL', 'DEL answers twice, every later reply of the connection is shifted')

seed('B28', 'P10', [('zdbd/commands_namespace.c', 'if(client->master && namespace->password)', 'if((client->master || client->admin) && namespace->password)')], '''
def demo(server):
    pass
''', '', '')
SEEDS.pop('B28')
