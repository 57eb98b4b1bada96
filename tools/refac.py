A='aiok8s/'
B=[]
ALL={}
def b(id,checks,f,*pairs):
    B.append((id,checks.split(','),[(A+f,o,n) for o,n in pairs]))
SI='cache/shared_informer.py'; DF='cache/delta_fifo.py'; RF='cache/reflector.py'; FF='cache/fifo.py'; TS='cache/thread_safe_store.py'
Q='workqueue/queue.py'; DQ='workqueue/delaying_queue.py'; RL='workqueue/default_rate_limiters.py'; RQ='workqueue/rate_limiting_queue.py'
CT='controller/controller.py'; SR='controller/source.py'; HD='controller/handler.py'; MG='controller/manager.py'; IM='controller/_informers_map.py'; CC='cache/controller.py'
MX='watch/mux.py'; WT='util/wait.py'; CK='util/clock.py'; MT='api/meta.py'; LE='leaderelection/leaderelection.py'; RLK='leaderelection/resourcelock.py'
b('r-q-yield','C08,C09,C10,C12,C13',Q,('''            self._queue.append(item)
            self._cond.notify()

    async def get''','''            self._enqueue(item)

    def _enqueue(self, item):
        self._queue.append(item)
        self._cond.notify()

    async def get'''),('''            if not self._queue:
                return None, True
            item = self._queue.popleft()
            self._processing.add(item)
            self._dirty.remove(item)
            return item, False''','''            if self._queue:
                item = self._queue.popleft()
                self._dirty.discard(item)
                self._processing |= {item}
                return item, False
            return None, True'''))
b('r-q-notifyall','C08,C09,C10,C12',Q,('''            self._queue.append(item)
            self._cond.notify()

    async def get''','''            self._queue.append(item)
            self._cond.notify_all()

    async def get'''))
b('r-q-sleep0','C08,C09,C10,C12,C13,C22',Q,('''    async def add(self, item):
''','''    async def add(self, item):
        await asyncio.sleep(0)
'''),('''    async def done(self, item):
''','''    async def done(self, item):
        await asyncio.sleep(0)
'''))
b('r-dq-loop','C09,C10,C12',DQ,('''            while len(waiting_for_queue):
                entry_ready_at = waiting_for_queue.peek_priority()
                if entry_ready_at > now:
                    break

                entry_data = waiting_for_queue.pop()
                await self.add(entry_data)
''','''            while len(waiting_for_queue) and waiting_for_queue.peek_priority() <= now:
                await self.add(waiting_for_queue.pop())
'''),('''        entry = self._entry_finder[data]
        if entry[0] > priority:
            self._entry_finder.pop(data)
            entry[-1] = self._REMOVED
            return True
        return False''','''        entry = self._entry_finder[data]
        if entry[0] <= priority:
            return False
        del self._entry_finder[data]
        entry[2] = self._REMOVED
        return True'''))
b('r-dq-newpq','C09,C10,C12',DQ,('''        if data in self._entry_finder:
            if not self._remove(data, priority):
                return
        else:
            self._len += 1
        count = next(self._counter)
        entry = [priority, count, data]
        self._entry_finder[data] = entry
        heapq.heappush(self._pq, entry)

    def peek_priority(self):
        while self._pq:
            priority, _, data = self._pq[0]
            if data is not self._REMOVED:
                return priority
            heapq.heappop(self._pq)
        raise KeyError

    def pop(self):
        while self._pq:
            _, _, data = heapq.heappop(self._pq)
            if data is not self._REMOVED:
                del self._entry_finder[data]
                self._len -= 1
                return data
        raise KeyError
''','''        old = self._entry_finder.get(data)
        if old is not None and old[0] <= priority:
            return
        self._entry_finder[data] = (priority, next(self._counter))
        self._len = len(self._entry_finder)

    def peek_priority(self):
        return min(self._entry_finder.values())[0]

    def pop(self):
        data = min(self._entry_finder, key=self._entry_finder.get)
        del self._entry_finder[data]
        self._len -= 1
        return data
'''))
b('r-rl-seconds','C11',RL,('''        now = time.time() * 1_000_000_000
''','''        now = time.time()
'''),('''        max_elapsed = 1_000_000_000 * (self._burst - self._tokens) / self._limit
''','''        max_elapsed = (self._burst - self._tokens) / self._limit
'''),('''        delta = elapsed * self._limit / 1_000_000_000
''','''        delta = elapsed * self._limit
'''))
b('r-rl-exp','C11,C12',RL,('''        exp = self._failures[item]
        self._failures[item] += 1

        try:
            backoff = self._base_delay * 2 ** exp
        except OverflowError:
            backoff = self._max_delay
        calculated = min(backoff, self._max_delay)
        return calculated
''','''        exp = self._failures.get(item, 0)
        self._failures[item] = exp + 1
        delay = self._base_delay
        for _ in range(exp):
            if delay >= self._max_delay:
                break
            delay *= 2
        return min(delay, self._max_delay)
'''))
b('r-df-helper','C01,C03,C04,C05',DF,('''            queued_deletions = 0
            for k, old_item in self._items.items():
                if k in keys:
                    continue
                deleted_obj = None
                n = old_item.newest()
                if n:
                    deleted_obj = n.object
                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
                        deleted_obj = deleted_obj.obj
                queued_deletions += 1
                self._queue_action_locked(
                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
                )
            known_keys = self._known_objects.list_keys() if self._known_objects else []
            for k in known_keys:
                if k in keys or k in self._items:
                    continue
''','''            gone = [k for k in self._items if k not in keys]
            for k in gone:
                n = self._items[k].newest()
                deleted_obj = n.object if n else None
                if isinstance(deleted_obj, DeletedFinalStateUnknown):
                    deleted_obj = deleted_obj.obj
                self._queue_action_locked(
                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
                )
            queued_deletions = len(gone)
            known_keys = self._known_objects.list_keys() if self._known_objects else []
            for k in known_keys:
                if k in keys or k in self._items:
                    continue
'''))
b('r-df-deque','C01,C02,C03,C04,C05',DF,('''        self._queue = []
''','''        import collections
        self._queue = collections.deque()
'''),('''                id_ = self._queue.pop(0)
''','''                id_ = self._queue.popleft()
'''),('''        new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
        new_deltas = _dedup_deltas(new_deltas)
        if new_deltas:
            if id_ not in self._items:
                self._queue.append(id_)
            self._items[id_] = new_deltas
            self._cond.notify_all()
        else:
            del self._items[id_]
''','''        pending = self._items.get(id_)
        if pending is None:
            self._queue.append(id_)
            pending = Deltas()
        self._items[id_] = _dedup_deltas(Deltas([*pending, Delta(action_type, obj)]))
        self._cond.notify_all()
'''))
b('r-df-addsleep','C01,C02,C03,C05,C14,C22',DF,('''    async def add(self, obj):
        async with self._cond:
''','''    async def add(self, obj):
        await asyncio.sleep(0)
        async with self._cond:
'''),('''    async def update(self, obj):
        async with self._cond:
''','''    async def update(self, obj):
        await asyncio.sleep(0)
        async with self._cond:
'''))
b('r-ff-while','C05,C06',FF,('''        items = {}
        for item in list_:
            try:
                key = self._key_func(item)
            except Exception as e:
                raise store.StoreKeyError(item) from e
            items[key] = item
''','''        items = {self._checked_key(item): item for item in list_}
'''),('''    async def resync(self):
''','''    def _checked_key(self, obj):
        try:
            return self._key_func(obj)
        except Exception as e:
            raise store.StoreKeyError(obj) from e

    async def resync(self):
'''),('''            if id_ not in self._items:
                self._queue.append(id_)
            self._items[id_] = obj
            self._cond.notify_all()

    async def update(self, obj):
        await self.add(obj)
''','''            new = id_ not in self._items
            self._items[id_] = obj
            if new:
                self._queue.append(id_)
                self._cond.notify_all()

    async def update(self, obj):
        return await self.add(obj)
'''))
b('r-ts-diff','C01,C02,C07',TS,('''        if old_obj is not None:
            self._delete_from_indices(old_obj, key)
        for name, index_func in self._indexers.items():
            index_values = index_func(new_obj)
            index = self._indices.setdefault(name, _index.Index())
            for index_value in index_values:
                set_ = index.setdefault(index_value, set())
                set_.add(key)
''','''        for name, index_func in self._indexers.items():
            new = set(index_func(new_obj))
            old = set() if old_obj is None else set(index_func(old_obj))
            index = self._indices.setdefault(name, _index.Index())
            for gone in old - new:
                index[gone].discard(key)
                if not index[gone]:
                    del index[gone]
            for index_value in new:
                index.setdefault(index_value, set()).add(key)
'''))
b('r-ts-scan','C07',TS,('''            index = self._indices.get(index_name, _index.Index())
            set_ = index.get(index_key, set())
            return [self._items[key] for key in set_]
''','''            func = self._indexers[index_name]
            return [o for o in self._items.values() if index_key in func(o)]
'''),('''            if len(index_keys) == 1:
                return_key_set = index.get(index_keys[0], set())
            else:
                return_key_set = {
                    key
                    for index_key in index_keys
                    for key in index.get(index_key, set())
                }
''','''            return_key_set = set()
            for index_key in index_keys:
                return_key_set |= index.get(index_key, set())
'''))
b('r-rf-split','C01,C14,C22,C24,C15',RF,('''                if event["type"] == watch.EventType.ADDED:
                    try:
                        await self._store.add(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to add watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.MODIFIED:
                    try:
                        await self._store.update(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to update watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.DELETED:
                    try:
                        await self._store.delete(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to delete watch event object (%r) from store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.BOOKMARK:
                    pass
                else:
                    logger.error("unable to understand watch event object %r", event)
''','''                await self._apply(event)
'''),('''    def _set_last_sync_resource_version(self, v):
''','''    async def _apply(self, event):
        operation = {
            watch.EventType.ADDED: self._store.add,
            watch.EventType.MODIFIED: self._store.update,
            watch.EventType.DELETED: self._store.delete,
        }.get(event["type"])
        if operation is None:
            if event["type"] != watch.EventType.BOOKMARK:
                logger.error("unable to understand watch event object %r", event)
            return
        try:
            await operation(event["object"])
        except asyncio.CancelledError:
            raise
        except Exception as e:
            logger.error("store operation failed for %r: %r", event, e)

    def _set_last_sync_resource_version(self, v):
'''))
b('r-rf-options','C01,C14,C22',RF,('''        options = {"resource_version": resource_version}
        try:
            while True:
                timeout_seconds = int(_MIN_WATCH_TIMEOUT * (random.random() + 1))
                # TODO: AllowWatchBookmarks
                options["timeout_seconds"] = timeout_seconds
                try:
                    w = await self._lister_watcher.watch(options)
''','''        options = {"resource_version": resource_version}
        try:
            while True:
                timeout_seconds = int(random.uniform(_MIN_WATCH_TIMEOUT, 2 * _MIN_WATCH_TIMEOUT))
                # TODO: AllowWatchBookmarks
                options["timeout_seconds"] = timeout_seconds
                try:
                    w = await self._lister_watcher.watch(dict(options))
'''))
b('r-si-listener','C01,C02,C15,C21,C22',SI,('''        async def get():
            notification_to_add = await self._add_queue.get()
            self._add_queue.task_done()
            return notification_to_add

        next_queue = None
''','''        async def get():
            item = await self._add_queue.get()
            self._add_queue.task_done()
            await asyncio.sleep(0)
            return item

        next_queue = None
'''))
b('r-si-distribute','C01,C02,C15,C21',SI,('''            if sync:
                for listener in self._syncing_listeners:
                    await listener._add(obj)
            else:
                for listener in self._listeners:
                    await listener._add(obj)
''','''            targets = self._syncing_listeners if sync else self._listeners
            await asyncio.gather(*(listener._add(obj) for listener in list(targets)))
'''))
b('r-si-unbounded','C01,C02,C15,C21,C22',SI,('''    async def _add(self, notification):
        await self._add_queue.put(notification)
        await self._add_queue.join()
''','''    async def _add(self, notification):
        await self._add_queue.put(notification)
'''),('''        self._add_queue = asyncio.Queue(maxsize=1)
''','''        self._add_queue = asyncio.Queue()
'''))
b('r-si-deltas','C01,C02,C05',SI,('''                    old = self._indexer.get(d.object)
                    if old is not None:
                        # A''','''                    old = self._indexer.get(d.object)
                    if old is None:
                        await self._indexer.add(d.object)
                        await self._processor._distribute(
                            _AddNotification(new_obj=d.object), False
                        )
                    else:
                        # A'''),('''                    else:
                        await self._indexer.add(d.object)
                        await self._processor._distribute(
                            _AddNotification(new_obj=d.object), False
                        )
                elif''','''                elif'''))
b('r-si-resync','C15,C02',SI,('''        self._syncing_listeners = []
        resync_needed = False
        now = self._clock.now()
        for listener in self._listeners:
            if listener._should_resync(now):
                resync_needed = True
                self._syncing_listeners.append(listener)
                listener._determine_next_resync(now)
        return resync_needed
''','''        now = self._clock.now()
        due = [l for l in self._listeners if l._should_resync(now)]
        for listener in due:
            listener._determine_next_resync(now)
        self._syncing_listeners = due
        return bool(due)
'''))
b('r-ct-worker','C12,C13,C19,C22',CT,('''                async def aw():
                    while True:
                        await self._worker()
                        await asyncio.sleep(self.jitter_period)

                aws = [
                    asyncio.ensure_future(aw())
                    for _ in range(self.max_concurrent_reconciles)
                ]
''','''                aws = []
                for _ in range(self.max_concurrent_reconciles):
                    aws.append(asyncio.create_task(self._work_forever()))
'''),('''    async def _worker(self):
        while await self._process_next_work_item():
            pass
''','''    async def _work_forever(self):
        while True:
            more = True
            while more:
                more = await self._process_next_work_item()
            await asyncio.sleep(self.jitter_period)
'''),('''        if result.requeue_after:
            self.queue.forget(obj)
            await self.queue.add_after(obj, result.requeue_after)
            return True
        if result.requeue:
            await self.queue.add_rate_limited(obj)
            return True

        self.queue.forget(obj)

        logger''','''        if result.requeue and not result.requeue_after:
            await self.queue.add_rate_limited(obj)
            return True
        self.queue.forget(obj)
        if result.requeue_after:
            await self.queue.add_after(obj, result.requeue_after)
            return True

        logger'''))
b('r-ct-backoffgone','C12,C22',CT,('''            await self.queue.add_rate_limited(obj)
            logger.exception("Reconciler error")
            return False
''','''            logger.exception("Reconciler error")
            await self.queue.add_rate_limited(obj)
            return True
'''))
b('r-hd-dedup','C13,C12,C19',HD,('''        if event.meta_old:
            await queue.add(
                reconcile.Request(
                    reconcile.NamespacedName(
                        name=event.meta_old.name, namespace=event.meta_old.namespace
                    )
                )
            )
        else:
            logger.error("UpdateEvent received with no old metadata")

        if event.meta_new:
            await queue.add(
                reconcile.Request(
                    reconcile.NamespacedName(
                        name=event.meta_new.name, namespace=event.meta_new.namespace
                    )
                )
            )
        else:
            logger.error("UpdateEvent received with no new metadata")
''','''        for m in (event.meta_old, event.meta_new):
            if not m:
                logger.error("UpdateEvent received with missing metadata")
                continue
            await queue.add(_request(m))
'''),('''class EnqueueRequestForObject:
''','''def _request(m):
    return reconcile.Request(
        reconcile.NamespacedName(name=m.name, namespace=m.namespace)
    )


class EnqueueRequestForObject:
'''))
b('r-mg','C19,C22,C13',MG,('''            async with self._mutex:
                await self._wait_for_cache(tasks)
                tasks += [
                    asyncio.ensure_future(controller.start())
                    for controller in self._non_leader_election_runnables
                ]
''','''            async with self._mutex:
                await self._wait_for_cache(tasks)
                for controller in self._non_leader_election_runnables:
                    tasks.append(asyncio.create_task(controller.start()))
'''))
b('r-im','C19,C22',IM,('''            done, _ = await asyncio.wait(
                [*self._tasks, asyncio.Future()], return_when=asyncio.FIRST_EXCEPTION
            )
            for task in done:
                task.result()
''','''            forever = asyncio.get_running_loop().create_future()
            await asyncio.gather(*self._tasks, forever)
'''))
b('r-mx-gather','C16',MX,('''            for w in self._watchers.values():
                _, pending = await asyncio.wait(
                    [
                        asyncio.ensure_future(w._put(event)),
                        asyncio.ensure_future(w._stopped.wait()),
                    ],
                    return_when=asyncio.FIRST_COMPLETED,
                )
                for task in pending:
                    task.cancel()
''','''            for w in list(self._watchers.values()):
                await self._offer(w, event)

    async def _offer(self, w, event):
        put = asyncio.ensure_future(w._put(event))
        stopped = asyncio.ensure_future(w._stopped.wait())
        await asyncio.wait([put, stopped], return_when=asyncio.FIRST_COMPLETED)
        for task in (put, stopped):
            if not task.done():
                task.cancel()
'''))
b('r-mx-drop','C16',MX,('''                    if w._stopped.is_set():
                        continue
                    try:
                        w._result.put_nowait(event)
                    except asyncio.QueueFull:
                        pass
                return
''','''                    if not w._stopped.is_set() and not w._result.full():
                        w._result.put_nowait(event)
                return
'''))
b('r-wt-sleep','C12,C17,C18,C20,C21',WT,('''        if not sliding:
            # TODO: Reuse
            t = _time.Timer(jittered_period)
        await f()
        if sliding:
            t = _time.Timer(jittered_period)

        await t.c.get()
''','''        if sliding:
            await f()
            await asyncio.sleep(jittered_period)
        else:
            pause = asyncio.ensure_future(asyncio.sleep(jittered_period))
            await f()
            await pause
'''),('''    backoff = Backoff(**backoff.__dict__)
    while backoff.steps:
        if await condition():
            return
        if backoff.steps == 1:
            break
        await asyncio.sleep(backoff.step())
    raise WaitTimeoutError
''','''    import copy

    backoff = copy.copy(backoff)
    while backoff.steps > 0:
        if await condition():
            return
        if backoff.steps > 1:
            await asyncio.sleep(backoff.step())
        else:
            backoff.steps = 0
    raise WaitTimeoutError
'''))
b('r-ck','C23,C10',CK,('''                if w._step_interval:
                    while w._target_time <= t:
                        w._target_time += w._step_interval
                    new_waiters.append(w)
''','''                if w._step_interval:
                    missed = (t - w._target_time) // w._step_interval
                    w._target_time += (missed + 1) * w._step_interval
                    new_waiters.append(w)
'''))
b('r-le-order','C17,C18',LE,('''        now = time.time()
        leader_election_record = {
            "holderIdentity": self._config.lock.identity(),
            "leaseDurationSeconds": int(self._config.lease_duration),
            "renewTime": now,
            "acquireTime": now,
        }
        try:
            (
                old_''','''        now = time.time()
        me = self._config.lock.identity()
        leader_election_record = dict(
            acquireTime=now,
            renewTime=now,
            leaseDurationSeconds=int(self._config.lease_duration),
            holderIdentity=me,
        )
        try:
            (
                old_'''),('''        if (
            old_leader_election_record.get("holderIdentity")
            and self._observed_time + self._config.lease_duration > now
            and not self.is_leader()
        ):
''','''        mine = self.is_leader()
        held = bool(old_leader_election_record.get("holderIdentity"))
        expired = self._observed_time + self._config.lease_duration <= now
        if held and not mine and not expired:
'''),('''        if self.is_leader():
            leader_election_record["acquireTime"] = old_leader_election_record.get(
                "acquireTime", now
            )
            leader_election_record["leaderTransitions"] = (
                old_leader_election_record.get("leaderTransitions", 0)
            )
        else:
            leader_election_record["leaderTransitions"] = (
                old_leader_election_record.get("leaderTransitions", 0) + 1
            )
''','''        transitions = old_leader_election_record.get("leaderTransitions", 0)
        if mine:
            leader_election_record["acquireTime"] = old_leader_election_record.get(
                "acquireTime", now
            )
        else:
            transitions += 1
        leader_election_record["leaderTransitions"] = transitions
'''))
b('r-le-acquire','C17,C18',LE,('''        task = asyncio.ensure_future(
            wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
        )
        await asyncio.gather(task, return_exceptions=True)
        return succeeded
''','''        task = asyncio.ensure_future(
            wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
        )
        try:
            await task
        except asyncio.CancelledError:
            if not succeeded:
                raise
        return succeeded
'''))
b('r-rlk-copy','C25,C17,C18',RLK,('''        raw_record = json.dumps(leader_election_record)
        if self._cm.metadata.annotations is None:
            self._cm.metadata.annotations = {}
        self._cm.metadata.annotations[
            LEADER_ELECTION_RECORD_ANNOTATION_KEY
        ] = raw_record
''','''        raw_record = json.dumps(leader_election_record, sort_keys=True)
        self._cm.metadata.annotations = {
            **(self._cm.metadata.annotations or {}),
            LEADER_ELECTION_RECORD_ANNOTATION_KEY: raw_record,
        }
'''))
b('r-mt','C24,C14',MT,('''        group, _, version = self.api_version.rpartition("/")
        return schema''','''        parts = self.api_version.split("/", 1)
        group, version = ("", parts[0]) if len(parts) == 1 else parts
        return schema'''))
b('r-cc','C01,C22,C05',CC,('''            while True:
                await self._process_loop()
                await asyncio.sleep(1)
        except asyncio.CancelledError:
            task.cancel()
            await self._config.queue.close()
            raise
        finally:
            await task
''','''            while True:
                await self._process_loop()
                await asyncio.sleep(1)
        except asyncio.CancelledError:
            task.cancel()
            await self._config.queue.close()
            await asyncio.gather(task, return_exceptions=True)
            raise
'''))
# ---- second batch: loops and waits rewritten
b('s-wt-backoff','C20,C21,C12',WT,('''    backoff = Backoff(**backoff.__dict__)
    while backoff.steps:
        if await condition():
            return
        if backoff.steps == 1:
            break
        await asyncio.sleep(backoff.step())
    raise WaitTimeoutError
''','''    mine = Backoff(**vars(backoff))
    attempts = 0
    while mine.steps > 0:
        attempts += 1
        done = await condition()
        if done:
            return
        last = mine.steps == 1
        if last:
            raise WaitTimeoutError
        pause = mine.step()
        await asyncio.sleep(pause)
    raise WaitTimeoutError
'''))
b('s-wt-until','C20,C17',WT,('''    stop_task = asyncio.ensure_future(stop_event.wait())
    while not stop_event.is_set():
        if jitter_factor > 0:
            jittered_period = jitter(period, jitter_factor)
        else:
            jittered_period = period
        if not sliding:
            # TODO: Reuse
            t = _time.Timer(jittered_period)
        await f()
        if sliding:
            t = _time.Timer(jittered_period)

        timer_task = asyncio.ensure_future(t.c.get())
        await asyncio.wait([timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED)
        timer_task.cancel()
''','''    loop_ = asyncio.get_event_loop()
    while not stop_event.is_set():
        pause = jitter(period, jitter_factor) if jitter_factor > 0 else period
        begun = loop_.time()
        await f()
        if not sliding:
            pause = max(0, pause - (loop_.time() - begun))
        try:
            await asyncio.wait_for(stop_event.wait(), max(pause, 1e-9))
        except asyncio.TimeoutError:
            pass
'''))
b('s-wt-poll','C20,C19,C18',WT,('''    while True:
        await asyncio.sleep(interval)
        if await condition():
            return


# TODO: test, rewrite?
async def poll_immediate_infinite(interval, condition):
    if await condition():
        return
    await poll_infinite(interval, condition)
''','''    await asyncio.sleep(interval)
    while not await condition():
        await asyncio.sleep(interval)


# TODO: test, rewrite?
async def poll_immediate_infinite(interval, condition):
    while not await condition():
        await asyncio.sleep(interval)
'''))
b('s-le-acquire','C17,C18',LE,('''        async def f():
            nonlocal task, succeeded
            succeeded = await self._try_acquire_or_renew()
            self._maybe_report_transition()
            if not succeeded:
                logger.debug("failed to acquire lease %s", description)
                return
            logger.info("succesfully acquired lease %s", description)
            task.cancel()

        task = asyncio.ensure_future(
            wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
        )
        await asyncio.gather(task, return_exceptions=True)
        return succeeded
''','''        while not succeeded:
            pause = wait.jitter(self._config.retry_period, JITTER_FACTOR)
            succeeded = await self._try_acquire_or_renew()
            self._maybe_report_transition()
            if succeeded:
                logger.info("succesfully acquired lease %s", description)
            else:
                logger.debug("failed to acquire lease %s", description)
                await asyncio.sleep(pause)
        return succeeded
'''))
b('s-le-renew','C17,C18',LE,('''            try:
                await asyncio.wait_for(
                    wait.poll_immediate_infinite(
                        self._config.retry_period, self._try_acquire_or_renew
                    ),
                    self._config.renew_deadline,
                )
            except asyncio.CancelledError:
''','''            try:
                async with asyncio.timeout(self._config.renew_deadline):
                    while not await self._try_acquire_or_renew():
                        await asyncio.sleep(self._config.retry_period)
            except asyncio.CancelledError:
'''))
b('s-le-record','C17,C18,C25',LE,('''        leader_election_record = {
            "holderIdentity": self._config.lock.identity(),
            "leaseDurationSeconds": int(self._config.lease_duration),
            "renewTime": now,
            "acquireTime": now,
        }
''','''        leader_election_record = self._new_record(now)
'''),('''    def _maybe_report_transition(self):
''','''    def _new_record(self, now):
        return dict(
            acquireTime=now,
            renewTime=now,
            leaseDurationSeconds=int(self._config.lease_duration),
            holderIdentity=self._config.lock.identity(),
        )

    def _maybe_report_transition(self):
'''))
b('s-q-waitfor','C08,C09,C12,C22',Q,('''            while not self._queue and not self._shutting_down:
                try:
                    await self._cond.wait()
                except asyncio.CancelledError:
                    # This task may have consumed a notification that another
                    # waiting getter now needs.
                    if self._queue:
                        self._cond.notify()
                    raise
            if not self._queue:
                return None, True
            item = self._queue.popleft()
            self._processing.add(item)
            self._dirty.remove(item)
            return item, False
''','''            try:
                await self._cond.wait_for(lambda: self._queue or self._shutting_down)
            except asyncio.CancelledError:
                if self._queue:
                    self._cond.notify_all()
                raise
            if self._queue:
                item = self._queue.popleft()
                self._dirty.discard(item)
                self._processing.add(item)
                return item, False
            return None, True
'''))
b('s-rf-merge','C01,C14,C22,C15,C24,C28',RF,('''        get_events_task = asyncio.ensure_future(get_events())
        error_task = asyncio.ensure_future(error_queue.get())
        try:
            while True:
                event_task = asyncio.ensure_future(event_queue.get())
                done, _ = await asyncio.wait(
                    [event_task, error_task], return_when=asyncio.FIRST_COMPLETED
                )
                if error_task in done:
                    raise await error_task
                event = await event_task
                if event is None:
''','''        async def get_error():
            await event_queue.put(await error_queue.get())

        get_events_task = asyncio.ensure_future(get_events())
        error_task = asyncio.ensure_future(get_error())
        event_task = asyncio.ensure_future(asyncio.sleep(0))
        try:
            while True:
                event = await event_queue.get()
                if event is None:
'''))
b('s-rf-ops','C01,C14,C24',RF,('''                if event["type"] == watch.EventType.ADDED:
                    try:
                        await self._store.add(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to add watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.MODIFIED:
                    try:
                        await self._store.update(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to update watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.DELETED:
                    try:
                        await self._store.delete(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to delete watch event object (%r) from store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.BOOKMARK:
                    pass
                else:
                    logger.error("unable to understand watch event object %r", event)
''','''                op = {
                    watch.EventType.ADDED: self._store.add,
                    watch.EventType.MODIFIED: self._store.update,
                    watch.EventType.DELETED: self._store.delete,
                }.get(event["type"])
                if op:
                    try:
                        await op(event["object"])
                    except Exception as e:
                        logger.error("unable to store %r: %r", event["object"], e)
                elif event["type"] != watch.EventType.BOOKMARK:
                    logger.error("unable to understand watch event object %r", event)
'''))
b('s-si-apply','C01,C02,C05,C15,C21',SI,('''            for d in obj:
                if d.type in (
''','''            for d in list(obj):
                if d.type is delta_fifo.DeltaType.DELETED:
                    await self._indexer.delete(d.object)
                    await self._processor._distribute(
                        _DeleteNotification(old_obj=d.object), False
                    )
                elif d.type in (
'''),('''                elif d.type == delta_fifo.DeltaType.DELETED:
                    await self._indexer.delete(d.object)
                    await self._processor._distribute(
                        _DeleteNotification(old_obj=d.object), False
                    )
                else:
                    raise AssertionError


class''','''                else:
                    raise AssertionError


class'''))
b('s-mx-anext','C16',MX,('''            for w in self._watchers.values():
                _, pending = await asyncio.wait(
                    [
                        asyncio.ensure_future(w._put(event)),
                        asyncio.ensure_future(w._stopped.wait()),
                    ],
                    return_when=asyncio.FIRST_COMPLETED,
                )
                for task in pending:
                    task.cancel()
''','''            for w in list(self._watchers.values()):
                await self._hand(w, event)

    @staticmethod
    async def _hand(w, event):
        putting = asyncio.ensure_future(w._put(event))
        stopped = asyncio.ensure_future(w._stopped.wait())
        try:
            await asyncio.wait(
                [putting, stopped], return_when=asyncio.FIRST_COMPLETED
            )
        finally:
            putting.cancel()
            stopped.cancel()
'''))
b('s-ck-step','C23',CK,('''        self._time = t
        new_waiters = []
        for w in self._waiters:
            if w._target_time <= t:
                if w._skip_if_blocked:
                    if not w._dest_queue.full():
                        w._dest_queue.put_nowait(t)
                else:
                    await w._dest_queue.put(t)

                if w._step_interval:
                    while w._target_time <= t:
                        w._target_time += w._step_interval
                    new_waiters.append(w)
            else:
                new_waiters.append(w)
        self._waiters = new_waiters
''','''        self._time = t
        kept, due = [], []
        for w in self._waiters:
            (due if w._target_time <= t else kept).append(w)
        for w in due:
            if w._step_interval:
                while w._target_time <= t:
                    w._target_time += w._step_interval
                kept.append(w)
        self._waiters = kept
        for w in due:
            if not w._skip_if_blocked:
                await w._dest_queue.put(t)
            elif not w._dest_queue.full():
                w._dest_queue.put_nowait(t)
'''))
b('s-ct-worker','C12,C13,C19,C22',CT,('''    async def _worker(self):
        while await self._process_next_work_item():
            pass

    async def _process_next_work_item(self):
        obj, shutdown = await self.queue.get()
        if shutdown:
            return False
        try:
            return await self._reconcile_handler(obj)
        except Exception:
            logger.exception("")
        finally:
            await self.queue.done(obj)
''','''    async def _worker(self):
        going = True
        while going:
            obj, shutdown = await self.queue.get()
            if shutdown:
                return
            going = False
            try:
                going = await self._reconcile_handler(obj)
            except Exception:
                logger.exception("")
            finally:
                await self.queue.done(obj)
'''))
b('s-df-keys','C01,C03,C04,C05',DF,('''            queued_deletions = 0
            for k, old_item in self._items.items():
                if k in keys:
                    continue
                deleted_obj = None
''','''            queued_deletions = 0
            for k in [k for k in self._items if k not in keys]:
                old_item = self._items[k]
                deleted_obj = None
'''))
b('s-cc-loop','C28,C01,C22',CC,('''    async def _process_loop(self):
        while True:
            try:
                await self._config.queue.pop(self._process)
            except fifo.FIFOClosedError:
                return
            except fifo.ProcessError:
                pass  # Already requeued if it is to be retried
            # A retried item may be popped and fail again without ever yielding
            await asyncio.sleep(0)
''','''    async def _process_loop(self):
        while await self._pop_one():
            await asyncio.sleep(0)

    async def _pop_one(self):
        try:
            await self._config.queue.pop(self._process)
        except fifo.FIFOClosedError:
            return False
        except fifo.ProcessError as e:
            logger.debug("failed: %r", e)
        return True
'''))
b('s-rl-next','C11,C12',RL,('''        last = min(self._last, now)
        max_elapsed = 1_000_000_000 * (self._burst - self._tokens) / self._limit
        elapsed = min(now - last, max_elapsed)
        delta = elapsed * self._limit / 1_000_000_000
        tokens = min(self._tokens + delta, self._burst)
        return tokens
''','''        elapsed = max(0, now - self._last)
        return min(self._burst, self._tokens + elapsed * self._limit / 1_000_000_000)
'''))
b('s-rlk-fn','C25,C17,C18',RLK,('''        raw_record = json.dumps(leader_election_record)
        if self._cm.metadata.annotations is None:
            self._cm.metadata.annotations = {}
        self._cm.metadata.annotations[
            LEADER_ELECTION_RECORD_ANNOTATION_KEY
        ] = raw_record
        self._cm = await self.client.replace_namespaced_config_map(
            self.config_map_meta.name, self.config_map_meta.namespace, self._cm
        )
''','''        cm = self._cm
        annotations = dict(cm.metadata.annotations or {})
        annotations[LEADER_ELECTION_RECORD_ANNOTATION_KEY] = json.dumps(
            leader_election_record
        )
        cm.metadata.annotations = annotations
        stored = await self.client.replace_namespaced_config_map(
            cm.metadata.name or self.config_map_meta.name,
            self.config_map_meta.namespace,
            cm,
        )
        self._cm = stored
'''))
