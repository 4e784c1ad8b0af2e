"""Rewritings and broken bodies of the progress code, for selftest."""
S = "progress/_simple_progress_observer.py"
K = "progress/_composite_progress_observer.py"
C = "progress/_console_progress_observer.py"
H = "progress/_html_progress_observer.py"
Y = "progress/_ipython_progress_observer.py"
I = "progress/__init__.py"

SAME = [
    ("progress.state", S, "        self._running_scope_states.add(scope_state)\n        scope_state.running += 1\n        self.running_count += 1\n", "        self.running_count += 1\n        scope_state.running += 1\n        self._running_scope_states.add(scope_state)\n"),
    ("progress.state", S, "        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n        scope_state.completed += 1", "        if scope_state.running == 0:\n            self._running_scope_states.discard(scope_state)\n        scope_state.completed = scope_state.completed + 1"),
    ("progress.state", S, "            elapsed = t - self._prev_time\n            multiplier = elapsed / self.running_count\n            for scope_state in self._running_scope_states:\n                scope_state.weighted_elapsed += scope_state.running * multiplier\n        self._prev_time = t", "            elapsed = t - self._prev_time\n            for scope_state in self._running_scope_states:\n                scope_state.weighted_elapsed += elapsed * scope_state.running / self.running_count\n        self._prev_time = t"),
    ("progress.state", S, "        t = time.time()\n        if self.running_count:\n            elapsed = t - self._prev_time\n", "        t, previous = time.time(), self._prev_time\n        self._prev_time = t\n        if self.running_count > 0:\n            elapsed = t - previous\n"),
    ("progress.state", S, "        self.section_scope_mapping.setdefault(section, {}).setdefault(\n            scope, ScopeState()\n        ).total += amount", "        scopes = self.section_scope_mapping.setdefault(section, {})\n        if scope not in scopes:\n            scopes[scope] = ScopeState()\n        scopes[scope].total += amount"),
    ("progress.state", S, "    def increment_completed(self, section, scope):\n        self.update_weighted_elapsed()\n        scope_state = self.section_scope_mapping[section][scope]\n        scope_state.running -= 1\n        self.running_count -= 1\n        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n        scope_state.completed += 1", "    def _stopped(self, section, scope):\n        self.update_weighted_elapsed()\n        scope_state = self.section_scope_mapping[section][scope]\n        scope_state.running -= 1\n        self.running_count -= 1\n        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n        return scope_state\n\n    def increment_completed(self, section, scope):\n        self._stopped(section, scope).completed += 1"),
    ("progress.notify", S, "        with self._lock:\n            self._stale = True\n            self._state.increment_running(section, scope)", "        with self._lock:\n            self._state.increment_running(scope=scope, section=section)\n            self._stale = True"),
    ("progress.notify", S, "            if len(self._exception_tuples) < self._max_exception_count:\n                self._exception_tuples.append(\n                    (scope, (type(exception), exception, exception.__traceback__))\n                )", "            if len(self._exception_tuples) >= self._max_exception_count:\n                return\n            exception_tuple = type(exception), exception, exception.__traceback__\n            self._exception_tuples.append((scope, exception_tuple))"),
    ("progress.update_loop", S, "        done = False\n        first = True\n        while not done:\n            done = self._done_event.wait(\n                self._initial_update_delay if first else self._min_update_interval\n            )\n            first = False\n            with self._lock:\n                output_value = self._do_render()\n            if output_value is not None:\n                self._output(output_value)", "        delay = self._initial_update_delay\n        while True:\n            done = self._done_event.wait(delay)\n            delay = self._min_update_interval\n            with self._lock:\n                output_value = self._do_render()\n            if output_value is not None:\n                self._output(output_value)\n            if done:\n                break"),
    ("progress.update_loop", S, "            self._stale = False\n            self._last_render_time = t\n            self._state.update_weighted_elapsed()\n", "            self._state.update_weighted_elapsed()\n            self._last_render_time = t\n            self._stale = False\n"),
    ("progress.enter_exit", S, "        self._thread = threading.Thread(target=self._run_update_thread)\n        self._thread.start()", "        thread = threading.Thread(target=self._run_update_thread)\n        thread.start()\n        self._thread = thread"),
    ("progress.sorted_scopes", S, "    items = scope_dict.items()\n    try:\n        return sorted(items, key=lambda pair: _universal_sort_key(*pair[0]))\n    except Exception:\n        # Scope values are not necessarily orderable.\n        return sorted(items, key=lambda pair: _universal_sort_key(*map(str, pair[0])))", "    items = list(scope_dict.items())\n\n    def by_value(pair):\n        return _universal_sort_key(*pair[0])\n\n    def by_string(pair):\n        scope, _ = pair\n        return tuple(str(value) for value in scope)\n\n    try:\n        items = sorted(items, key=by_value)\n    except Exception:\n        items = sorted(items, key=by_string)\n    return items"),
    ("progress.scope_string", S, "    scope_string = \", \".join(str(value) for value in scope)\n", "    scope_string = \", \".join([f\"{value}\" for value in scope])\n"),
    ("progress.strings", S, "    all_done = completed + failed == total\n    started = completed + failed + running > 0\n    if all_done or not started:\n        progress_string = f\"{completed} / {total}\"\n    else:\n        progress_string = f\"({completed} + {running}) / {total}\"\n    if failed:\n        progress_string = f\"{progress_string}, {failed} failed\"\n    return progress_string", "    done = completed + failed\n    if done == total or done + running == 0:\n        parts = [f\"{completed} / {total}\"]\n    else:\n        parts = [f\"({completed} + {running}) / {total}\"]\n    if failed > 0:\n        parts.append(f\"{failed} failed\")\n    return \", \".join(parts)"),
    ("progress.console", C, "    for progress_str, elapsed_str, (scope, _scope_state) in zip(\n        progress_strs, elapsed_strs, scope_items\n    ):\n        print_(f\"  {progress_str} | {elapsed_str} | {get_scope_string(scope)}\")", "    for i, (scope, _scope_state) in enumerate(scope_items):\n        print_(f\"  {progress_strs[i]} | {elapsed_strs[i]} | {get_scope_string(scope)}\")"),
    ("progress.console", C, "                    if not is_done or section not in self._skipped_sections:\n                        _print_section(print_, section, scope_mapping)\n                    if is_done:\n                        self._skipped_sections.add(section)\n                    else:\n                        self._skipped_sections.discard(section)", "                    if not is_done:\n                        self._skipped_sections.discard(section)\n                        _print_section(print_, section, scope_mapping)\n                    elif section not in self._skipped_sections:\n                        _print_section(print_, section, scope_mapping)\n                        self._skipped_sections.add(section)"),
    ("progress.console", C, "                    is_done = all(\n                        s.completed + s.failed == s.total\n                        for s in scope_mapping.values()\n                    )", "                    is_done = not any(\n                        s.completed + s.failed != s.total\n                        for s in scope_mapping.values()\n                    )"),
    ("progress.console_output", C, "            value = value.encode(encoding, errors=\"backslashreplace\").decode(encoding)\n            print(value, end=\"\", flush=True)", "            encoded = value.encode(encoding, \"replace\")\n            print(encoded.decode(encoding), end=\"\", flush=True)"),
    ("progress.html", H, "    rendered_scopes = \"\\n\".join(\n        _render_scope(scope, scope_state)\n        for scope, scope_state in sorted_scope_items(scope_mapping)\n    )", "    rows = []\n    for scope, scope_state in sorted_scope_items(scope_mapping):\n        rows.append(_render_scope(scope, scope_state))\n    rendered_scopes = \"\\n\".join(rows)"),
    ("progress.html", H, "    completed_percentage = 100 * scope_state.completed / scope_state.total\n    running_percentage = 100 * scope_state.running / scope_state.total\n    failed_percentage = 100 * scope_state.failed / scope_state.total\n", "    def percentage(count):\n        return 100 * count / scope_state.total\n\n    completed_percentage = percentage(scope_state.completed)\n    running_percentage = percentage(scope_state.running)\n    failed_percentage = percentage(scope_state.failed)\n"),
    ("progress.html", H, "            def output(html_bytes: bytes):\n                with staged_write(path, mode=\"wb\") as f:\n                    f.write(html_bytes)\n\n        self._output_fn = output", "            def write(html_bytes: bytes):\n                with staged_write(path, \"wb\") as f:\n                    f.write(html_bytes)\n\n            output = write\n\n        self._output_fn = output"),
    ("progress.ipython", Y, "        key = tuple(key)\n        widget = self._widget_cache.get(key)\n        if widget is None:\n            self._widget_cache[key] = widget = default()\n        return widget", "        if key not in self._widget_cache:\n            self._widget_cache[key] = default()\n        return self._widget_cache[key]"),
    ("progress.ipython", Y, "                    bar_style = \"\"\n                    if scope_state.completed == scope_state.total:\n                        bar_style = \"success\"\n                    elif scope_state.failed:\n                        bar_style = \"danger\"\n                    progress_widget.bar_style = bar_style", "                    progress_widget.bar_style = (\n                        \"success\"\n                        if scope_state.completed == scope_state.total\n                        else \"danger\"\n                        if scope_state.failed\n                        else \"\"\n                    )"),
    ("progress.composite", K, "        with ExitStack() as stack:\n            for progress_observer in self._progress_observers:\n                stack.enter_context(progress_observer)\n            self._stack = stack.pop_all()", "        stack = ExitStack()\n        with stack:\n            for member in self._progress_observers:\n                stack.enter_context(member)\n            self._stack = stack.pop_all()"),
    ("progress.composite", K, "    def increment_running(self, *, section: str, scope: tuple):\n        for progress_observer in self._progress_observers:\n            progress_observer.increment_running(section=section, scope=scope)", "    def _forward(self, name, **kwargs):\n        for progress_observer in self._progress_observers:\n            getattr(progress_observer, name)(**kwargs)\n\n    def increment_running(self, *, section: str, scope: tuple):\n        self._forward(\"increment_running\", section=section, scope=scope)"),
    ("progress.composite", K, "        self._stack.__exit__(exc_type, exc_val, exc_tb)", "        stack, self._stack = self._stack, None\n        stack.__exit__(exc_type, exc_val, exc_tb)"),
    ("progress.composite_progress", I, "        return CompositeProgressObserver(progress.observer() for progress in members)", "        observers = [member.observer() for member in members]\n        return CompositeProgressObserver(observers)"),
]

MUTANTS = [
    ("progress.state", S, "        if not scope_state.running:\n            self._running_scope_states.remove(scope_state)\n        scope_state.completed += 1", "        self._running_scope_states.remove(scope_state)\n        scope_state.completed += 1"),
    ("progress.state", S, "    def increment_failed(self, section, scope):\n        self.update_weighted_elapsed()\n", "    def increment_failed(self, section, scope):\n"),
    ("progress.state", S, "                scope_state.weighted_elapsed += scope_state.running * multiplier", "                scope_state.weighted_elapsed += multiplier"),
    ("progress.state", S, "        scope_state.failed += 1", "        scope_state.completed += 1"),
    ("progress.state", S, "            multiplier = elapsed / self.running_count", "            multiplier = elapsed / len(self._running_scope_states)"),
    ("progress.state", S, "        self._prev_time = t\n", "            self._prev_time = t\n"),
    ("progress.state", S, "        ).total += amount", "        ).total = amount"),
    ("progress.state", S, "            scope, ScopeState()\n        ).total += amount", "            scope, ScopeState()\n        ).total += 1"),
    ("progress.state", S, "        scope_state.running += 1\n        self.running_count += 1\n", "        scope_state.running += 1\n        self.running_count = len(self._running_scope_states)\n"),
    ("progress.notify", S, "        with self._lock:\n            self._stale = True\n            self._state.increment_completed(section, scope)", "        self._stale = True\n        self._state.increment_completed(section, scope)"),
    ("progress.notify", S, "        with self._lock:\n            self._stale = True\n            self._state.increment_completed(section, scope)", "        with self._lock:\n            self._state.increment_completed(section, scope)"),
    ("progress.notify", S, "                    (scope, (type(exception), exception, exception.__traceback__))", "                    (type(exception), exception, exception.__traceback__)"),
    ("progress.update_loop", S, "        while not done:\n            done = self._done_event.wait(\n                self._initial_update_delay if first else self._min_update_interval\n            )\n            first = False\n", "        while not done:\n            done = self._done_event.wait(\n                self._initial_update_delay if first else self._min_update_interval\n            )\n            first = False\n            if done:\n                break\n"),
    ("progress.update_loop", S, "            with self._lock:\n                output_value = self._do_render()", "            output_value = self._do_render()"),
    ("progress.update_loop", S, "            self._stale\n            or self._last_render_time is None\n            or t", "            self._last_render_time is None\n            or t"),
    ("progress.update_loop", S, "            self._stale\n            or self._last_render_time is None\n            or t - self._last_render_time >= self._max_update_interval\n        ):\n            self._stale = False\n", "            self._stale\n            or self._last_render_time is None\n            or t - self._last_render_time >= self._max_update_interval\n        ):\n"),
    ("progress.update_loop", S, "            if output_value is not None:\n                self._output(output_value)", "            if output_value is not None and not done:\n                self._output(output_value)"),
    ("progress.update_loop", S, "        t = time.time()\n        if (\n            self._stale", "        t = time.time()\n        self._stale = False\n        if (\n            self._stale"),
    ("progress.update_loop", S, "            with self._lock:\n                output_value = self._do_render()\n            if", "            with self._lock:\n                output_value = self._do_render()\n            done = done or self._done_event.is_set()\n            if"),
    ("progress.enter_exit", S, "        self._done_event.set()\n        self._thread.join()\n", "        self._thread.join()\n        self._done_event.set()\n"),
    ("progress.enter_exit", S, "        self._done_event.set()\n        self._thread.join()\n", "        self._done_event.set()\n"),
    ("progress.enter_exit", S, "        self._stale = True\n        self._done_event", "        self._stale = False\n        self._done_event"),
    ("progress.sorted_scopes", S, "    except Exception:", "    except TypeError:"),
    ("progress.sorted_scopes", S, "_universal_sort_key(*map(str, pair[0])))", "_universal_sort_key(*pair[0][:1]))"),
    ("progress.sorted_scopes", S, "    return tuple((str(type(x)), x) for x in args)", "    return tuple((type(x), x) for x in args)"),
    ("progress.scope_string", S, "\", \".join(str(value) for value in scope)", "\", \".join(scope)"),
    ("progress.strings", S, "        progress_string = f\"({completed} + {running}) / {total}\"", "        progress_string = f\"{running} / {total}\""),
    ("progress.strings", S, "    if failed:\n        progress_string = f\"{progress_string}, {failed} failed\"", "    if failed and not all_done:\n        progress_string = f\"{progress_string}, {failed} failed\""),
    ("progress.console", C, "                    if not is_done or section not in self._skipped_sections:", "                    if section not in self._skipped_sections:"),
    ("progress.console", C, "                    else:\n                        self._skipped_sections.discard(section)", "                    self._skipped_sections.add(section)"),
    ("progress.console", C, "                        s.completed + s.failed == s.total", "                        s.completed == s.total"),
    ("progress.console", C, "                    is_done = all(", "                    is_done = any("),
    ("progress.console", C, "        progress_strs, elapsed_strs, scope_items\n    ):", "        progress_strs[1:], elapsed_strs, scope_items\n    ):"),
    ("progress.console", C, "            scope, exception_tuple = exception_tuples[exception_index]", "            scope, exception_tuple = exception_tuples[exception_index + 1]"),
    ("progress.console", C, "                        str", "                        str"),
    ("progress.console_output", C, "encode(encoding, errors=\"backslashreplace\")", "encode(encoding)"),
    ("progress.console_output", C, "        except UnicodeEncodeError:", "        except UnicodeDecodeError:"),
    ("progress.html", H, "            errors=\"xmlcharrefreplace\"\n        )", "        )"),
    ("progress.html", H, "    completed_percentage = 100 * scope_state.completed / scope_state.total\n", "    completed_percentage = 100 * scope_state.completed / scope_state.completed\n"),
    ("progress.html", H, "    if len(scope_mapping) > 1:\n        total_scope_state", "    if True:\n        total_scope_state"),
    ("progress.html", H, "        total=sum(s.total for s in scope_states),\n", ""),
    ("progress.html", H, "{escape(get_scope_string(scope))}", "{escape(scope[0])}"),
    ("progress.html", H, "    if exception_tuples:\n", "    if True:\n"),
    ("progress.html", H, "        for scope, scope_state in sorted_scope_items(scope_mapping)\n", "        for scope, scope_state in sorted_scope_items(scope_mapping)\n        if scope_state.completed < scope_state.total\n"),
    ("progress.html", H, "            (\"stale\", \"Determining stale value stores\"),\n", ""),
    ("progress.html", H, "                    f.write(html_bytes)", "                    f.write(html_bytes[:-1])"),
    ("progress.ipython", Y, "                    children.append(hbox_widget)", "                    if scope_state.running:\n                        children.append(hbox_widget)"),
    ("progress.ipython", Y, "            self._widget_cache[key] = widget = default()", "            widget = default()"),
    ("progress.ipython", Y, "        if self._widget_cache is None:\n            self._widget_cache = {}\n", "        if self._widget_cache is None:\n"),
    ("progress.ipython", Y, "        vbox_widget.children = children", "        vbox_widget.children = children[:1]"),
    ("progress.composite", K, "                stack.enter_context(progress_observer)\n", "                stack.enter_context(progress_observer)\n                break\n"),
    ("progress.composite", K, "            self._stack = stack.pop_all()", "            self._stack = stack"),
    ("progress.composite_progress", K, "        self._progress_observers = tuple(progress_observers)\n", "        self._progress_observers = progress_observers\n"),
    ("progress.composite", K, "            progress_observer.increment_completed(section=section, scope=scope)", "            progress_observer.increment_completed(section=section, scope=scope)\n            progress_observer.increment_completed(section=section, scope=scope)"),
    ("progress.composite", K, "                section=section, scope=scope, amount=amount", "                section=section, scope=scope, amount=1"),
    ("progress.composite", K, "        self._stack.__exit__(exc_type, exc_val, exc_tb)", "        if exc_val is None:\n            pass\n        else:\n            self._stack.__exit__(exc_type, exc_val, exc_tb)"),
    ("progress.composite_progress", I, "    def create_observer():\n        return CompositeProgressObserver(progress.observer() for progress in members)", "    observers = (progress.observer() for progress in members)\n\n    def create_observer():\n        return CompositeProgressObserver(observers)"),
    ("progress.composite_progress", I, "        return CompositeProgressObserver(progress.observer() for progress in members)", "        return CompositeProgressObserver(progress.observer() for progress in members[1:])"),
]
MUTANTS = [m for m in MUTANTS if m[2] != m[3]]
