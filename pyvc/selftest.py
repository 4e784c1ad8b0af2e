"""Broken bodies: every unit must refuse them. Run by hand: python3-vt -m pyvc.selftest [pattern]."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = "_execution/run_function_on_graph.py"
P = "_execution/run_physical.py"
C = "_transformations/caching.py"
U = "_transformations/pruning.py"
D = "_execution/scheduler.py"
X = "_util/networkx_util.py"
N = "_run.py"
H = "graph.py"
L = "_plan.py"
T = "_util/traceback.py"
G2 = "_registry.py"
B = "_builtins.py"
Y = "_util/retry.py"
V = "_util/validation.py"
E = "_errors.py"
W = "pool.run.workers-limit"
# rewritings that keep the behaviour: no obligation may fail (discharged, or out of reach)
SAME = [
    ("physical", P, "        args = [arg.value for arg in self.args]\n        kwargs = {name: arg.value for name, arg in self.kwargs.items()}\n        self.result.value = retry(fn)(*args, **kwargs)",
     "        args = []\n        for arg in self.args:\n            args.append(arg.value)\n        kwargs = {}\n        for name in self.kwargs:\n            kwargs[name] = self.kwargs[name].value\n        call = retry(fn)\n        value = call(*args, **kwargs)\n        self.result.value = value"),
    ("physical", P, "    args, kwargs = get_argument_nodes(graph, call)\n    args = [result_lookup[predecessor] for predecessor in args]\n    kwargs = {name: result_lookup[predecessor] for name, predecessor in kwargs.items()}\n    result = result_lookup[call]\n    return BoundCall(args, kwargs, result)",
     "    arg_nodes, kwarg_nodes = get_argument_nodes(graph, call)\n    return BoundCall(\n        args=list(map(result_lookup.__getitem__, arg_nodes)),\n        kwargs=dict((k, result_lookup[v]) for k, v in kwarg_nodes.items()),\n        result=result_lookup[call],\n    )"),
    ("physical", P, "    args = [result_lookup[predecessor] for predecessor in args]\n", "    args = tuple(result_lookup[predecessor] for predecessor in args)\n"),
    ("physical", P, "    result_lookup = {\n        node: node if type(node) is Literal else Slot(None)\n        for node in plan.graph.nodes()\n    }\n",
     "    result_lookup = {}\n    for node in plan.graph.nodes():\n        if isinstance(node, Literal):\n            result_lookup[node] = node\n        else:\n            result_lookup[node] = Slot(None)\n"),
    ("physical", P, "    bound_call_lookup = {\n        node: Slot(_create_bound_call(plan.graph, node, result_lookup))\n        for node in plan.graph.nodes()\n        if type(node) is Call\n    }\n",
     "    bound_call_lookup = {}\n    for node in plan.graph.nodes():\n        if type(node) is Call:\n            bound_call = _create_bound_call(plan.graph, node, result_lookup)\n            bound_call_lookup[node] = Slot(bound_call)\n"),
    ("physical", P, "        if type(node) is Call:\n            scope = get_full_call_scope(node)\n            progress_observer.increment_running", "        if not isinstance(node, Call):\n            return\n        if True:\n            scope = get_full_call_scope(node)\n            progress_observer.increment_running"),
    ("physical", P, "            bound_call = bound_call_lookup[node]\n            try:\n                bound_call.value.run(node.fn, retry)\n", "            slot = bound_call_lookup[node]\n            bound_call = slot\n            try:\n                fn = node.fn\n                slot.value.run(fn, retry)\n"),
    ("physical", P, "                progress_observer.increment_failed(\n                    section=\"run\",\n                    scope=scope,\n                    exception=create_chained_call_error(node, exception),\n                )\n", "                call_error = create_chained_call_error(node, exception)\n                progress_observer.increment_failed(\n                    exception=call_error, scope=scope, section=\"run\"\n                )\n"),
    ("physical", P, "            finally:\n                bound_call.value = None\n            progress_observer.increment_completed(section=\"run\", scope=scope)\n", "            else:\n                progress_observer.increment_completed(section=\"run\", scope=scope)\n            finally:\n                bound_call.value = None\n"),
    ("physical", P, "    def process(node):\n        if type(node) is Call:\n            scope = get_full_call_scope(node)\n", "    def notify_running(scope):\n        progress_observer.increment_running(section=\"run\", scope=scope)\n\n    def process(node):\n        if type(node) is Call:\n            scope = get_full_call_scope(node)\n"),
    ("physical", P, "    retry = retry or identity\n    progress_observer = progress_observer or NullProgressObserver()\n", "    if retry is None:\n        retry = identity\n    if progress_observer is None:\n        progress_observer = NullProgressObserver()\n"),
    ("run.physical", P, "    _, output_slot, process, plan = prep_run_physical(\n        plan,\n        output_node=output_node,\n        retry=retry,\n        inplace=inplace,\n        progress_observer=progress_observer,\n    )\n", "    prepared = prep_run_physical(\n        plan,\n        output_node=output_node,\n        retry=retry,\n        inplace=inplace,\n        progress_observer=progress_observer,\n    )\n    output_slot, process, plan = prepared.output_slot, prepared.process, prepared.plan\n"),
    ("run.physical", P, "    return output_slot.value if output_slot else None\n", "    if output_slot is None:\n        return None\n    return output_slot.value\n"),
    ("run.physical", P, "    output_slot = result_lookup[output_node] if output_node else None\n", "    output_slot = None\n    if output_node is not None:\n        output_slot = result_lookup[output_node]\n"),
    ("plan.call", L, "        for index, arg in enumerate(args):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, PositionalArg(index)\n            )\n", "        for index in range(len(args)):\n            node = self._gather(stack_frame, args[index])\n            self.graph.add_edge(node, call, PositionalArg(index))\n"),
    ("plan.call", L, "        for index, (name, arg) in enumerate(kwargs.items()):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, KeywordArg(name, index)\n            )\n", "        for index, name in enumerate(kwargs):\n            node = self._gather(stack_frame, kwargs[name])\n            self.graph.add_edge(node, call, KeywordArg(name, index))\n"),
    ("plan.call", L, "        self.graph.add_node(call)\n        for index, arg in enumerate(args):", "        graph = self.graph\n        graph.add_node(call)\n        for index, arg in enumerate(args, 0):"),
    ("plan.call", L, "        for index, arg in enumerate(args):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, PositionalArg(index)\n            )\n        for index, (name, arg) in enumerate(kwargs.items()):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, KeywordArg(name, index)\n            )\n",
     "        for index, (name, arg) in enumerate(kwargs.items()):\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, KeywordArg(name, index)\n            )\n        index = 0\n        for arg in args:\n            self.graph.add_edge(\n                self._gather(stack_frame, arg), call, PositionalArg(index)\n            )\n            index += 1\n"),
    ("plan.gather", L, "                children = [recurse(item) for item in items]\n                if any(isinstance(child, Node) for child in children):\n                    return self._call(stack_frame, gather_fn, *children)\n            return root\n", "                children = list(map(recurse, items))\n                symbolic = [child for child in children if isinstance(child, Node)]\n                if symbolic:\n                    return self._call(stack_frame, gather_fn, *children)\n            return root\n"),
    ("plan.gather", L, "                children = [recurse(item) for item in items]\n                if any(isinstance(child, Node) for child in children):\n                    return self._call(stack_frame, gather_fn, *children)\n            return root\n", "                children = []\n                found = False\n                for item in items:\n                    child = recurse(item)\n                    if isinstance(child, Node):\n                        found = True\n                    children.append(child)\n                if found:\n                    return self._call(stack_frame, gather_fn, *children)\n            return root\n"),
    ("plan.gather", L, "            root_type = type(root)\n            gather_fn = GATHER_LOOKUP.get(root_type)\n            if gather_fn is not None:\n                items = root.items() if root_type is dict else root\n                children = [recurse(item) for item in items]\n                if any(isinstance(child, Node) for child in children):\n                    return self._call(stack_frame, gather_fn, *children)\n            return root\n",
     "            root_type = type(root)\n            if root_type not in GATHER_LOOKUP:\n                return root\n            if root_type is dict:\n                items = root.items()\n            else:\n                items = root\n            children = tuple(recurse(item) for item in items)\n            if not any(isinstance(child, Node) for child in children):\n                return root\n            return self._call(stack_frame, GATHER_LOOKUP[root_type], *children)\n"),
    ("plan.gather", L, "        value = recurse(value)\n        return value if isinstance(value, Node) else self._lit(stack_frame, value)\n", "        gathered = recurse(value)\n        if not isinstance(gathered, Node):\n            gathered = self._lit(stack_frame, gathered)\n        return gathered\n"),
    ("plan.lit", L, "        return self._lit(get_stack_frame(), value)\n", "        frame = get_stack_frame()\n        literal = self._lit(frame, value)\n        return literal\n"),
    ("plan.lit", L, "        return self._lit(get_stack_frame(), value)\n", "        if isinstance(value, Node):\n            raise TypeError(f\"The value is already a {Node.__name__}.\")\n        literal = Literal(value, scope=self._scope, stack_frame=get_stack_frame())\n        self.graph.add_node(literal)\n        return literal\n"),
    ("plan.public_call", L, "        return self._call(get_stack_frame(), fn, *args, **kwargs)\n", "        frame = get_stack_frame(2)\n        call = self._call(frame, fn, *args, **kwargs)\n        return call\n"),
    ("plan.unpack", L, "        return tuple(\n            self._call(stack_frame, operator.getitem, t, index)\n            for index in range(length)\n        )\n", "        items = []\n        for index in range(length):\n            items.append(self._call(stack_frame, operator.getitem, t, index))\n        return tuple(items)\n"),
    ("plan.unpack", L, "        if not isinstance(length, int) or length < 0:\n            raise", "        valid = isinstance(length, int) and length >= 0\n        if not valid:\n            raise"),
    ("plan.add_dependency", L, "        for node in (source, target):\n            if not self.graph.has_node(node):\n                raise KeyError(f\"The plan graph does not contain the node {node!r}.\")\n", "        for node in [source, target]:\n            if node not in self.graph:\n                raise KeyError(f\"The plan graph does not contain the node {node!r}.\")\n"),
    ("plan.scope", L, "            child_scope = parent_scope + args\n", "            child_scope = (*parent_scope, *args)\n"),
    ("plan.scope", L, "            parent_scope = self._scope\n            child_scope = parent_scope + args\n            self._scope = child_scope\n", "            parent_scope = self._scope\n            child_scope = self._scope = parent_scope + tuple(args)\n"),
    ("plan.copy", L, "        new_plan = Plan()\n        new_plan.graph = self.graph.copy()\n        return new_plan\n", "        graph = self.graph.copy()\n        plan = Plan()\n        plan.graph = graph\n        return plan\n"),
    ("registry.copy", G2, "        new_registry.mapping = {\n            node: copy.copy(registry_value)\n            for node, registry_value in self.mapping.items()\n        }\n", "        for node, registry_value in self.mapping.items():\n            new_registry.mapping[node] = copy.copy(registry_value)\n"),
    ("registry.copy", G2, "            node: copy.copy(registry_value)\n", "            node: RegistryValue(\n                registry_value.value_store,\n                is_source=registry_value.is_source,\n                stack_frame=registry_value.stack_frame,\n            )\n"),
    ("registry.add", G2, "        if node in self.mapping:\n            raise", "        if self.mapping.get(node) is not None:\n            raise"),
    ("registry.add", G2, "        self.mapping[node] = RegistryValue(\n            value_store, is_source=False, stack_frame=get_stack_frame()\n        )\n", "        stack_frame = get_stack_frame()\n        entry = RegistryValue(\n            value_store, is_source=False, stack_frame=stack_frame\n        )\n        self.mapping[node] = entry\n"),
    ("registry.views", G2, "        v = self.mapping.get(node)\n        return v.value_store if v else None\n", "        if node not in self.mapping:\n            return None\n        return self.mapping[node].value_store\n"),
    ("registry.views", G2, "        return [v.value_store for v in self.mapping.values()]\n", "        stores = []\n        for entry in self.mapping.values():\n            stores.append(entry.value_store)\n        return stores\n"),
    ("registry.views", G2, "        return [(k, v.value_store) for k, v in self.mapping.items()]\n", "        return [(node, self[node]) for node in self.mapping]\n"),
    ("builtins.gather", B, "    return list(args)\n", "    return [*args]\n"),
    ("builtins.gather", B, "    return dict(args)\n", "    return {k: v for k, v in args}\n"),
    ("builtins.gather", B, "    return set(args)\n", "    result = set()\n    for arg in args:\n        result.add(arg)\n    return result\n"),
    ("builtins.gather", B, "    return tuple(args)\n", "    return args\n"),
    ("builtins.unpack", B, "    if len(t) < length:\n", "    count = len(t)\n    if count < length:\n"),
    ("builtins.unpack", B, "    if len(t) > length:\n        raise ValueError(f\"too many values to unpack (expected {length})\")\n    return t\n", "    if len(t) == length:\n        return t\n    raise ValueError(f\"too many values to unpack (expected {length})\")\n"),
    ("trace.capture", T, "    initial_frame = inspect.currentframe()\n    for _ in range(initial_depth):\n        initial_frame = initial_frame.f_back\n", "    frame = inspect.currentframe()\n    depth = 0\n    while depth < initial_depth:\n        frame = frame.f_back\n        depth += 1\n    initial_frame = frame\n"),
    ("trace.capture", T, "        if not frame:\n            return None\n        if depth < 0:\n            return TruncatedStackFrame\n        return StackFrame(\n            name=frame.f_code.co_name,\n            path=frame.f_code.co_filename,\n", "        if frame is None:\n            return None\n        if depth == -1:\n            return TruncatedStackFrame\n        code = frame.f_code\n        return StackFrame(\n            name=code.co_name,\n            path=code.co_filename,\n"),
    ("trace.render", T, "    while stack_frame:\n        if stack_frame is TruncatedStackFrame:\n            stack_frames.append(stack_frame)\n            break\n        if \"/IPython/core/\" in stack_frame.path:\n            break\n        stack_frames.append(stack_frame)\n        stack_frame = stack_frame.outer\n", "    while stack_frame is not None:\n        truncated = stack_frame is TruncatedStackFrame\n        if not truncated and \"/IPython/core/\" in stack_frame.path:\n            break\n        stack_frames.append(stack_frame)\n        if truncated:\n            break\n        stack_frame = stack_frame.outer\n"),
    ("trace.render", T, "    return \"\\n\".join(\n        [\n            \"Symbolic traceback (most recent call last):\",\n            *(\n                format_stack_frame(stack_frame)\n                for stack_frame in reversed(stack_frames)\n            ),\n        ]\n    )\n", "    lines = [\"Symbolic traceback (most recent call last):\"]\n    for stack_frame in stack_frames[::-1]:\n        lines.append(format_stack_frame(stack_frame))\n    return \"\\n\".join(lines)\n"),
    ("trace.render", T, "        return f'  File \"{s.path}\", line {s.line}, in {s.name}'\n", "        return '  File \"' + s.path + f'\", line {s.line}, in ' + s.name\n"),
    ("edge.keys", H, "        return type(other) is PositionalArg and self.index == other.index\n", "        if type(other) is not PositionalArg:\n            return False\n        return self.index == other.index\n"),
    ("edge.keys", H, "        return (\n            type(other) is KeywordArg\n            and self.index == other.index\n            and self.name == other.name\n        )\n", "        return type(other) is KeywordArg and (self.name, self.index) == (other.name, other.index)\n"),
    ("errors.call_error", E, "    call_error = CallError(call)\n    call_error.__cause__ = exception\n    return call_error\n", "    error = CallError(call)\n    error.__cause__ = exception\n    return error\n"),
    ("errors.call_error", E, "            \"\\n\".join(\n                [\n                    f\"An exception was raised in a symbolic call to {fully_qualified_name(call.fn)}.\",\n                    render_symbolic_traceback(call.stack_frame),\n                ]\n            )\n", "            f\"An exception was raised in a symbolic call to {fully_qualified_name(call.fn)}.\"\n            + \"\\n\"\n            + render_symbolic_traceback(call.stack_frame)\n"),
    ("retry.calls", Y, "            for attempt_index in range(attempts):\n                try:\n                    return f(*args, **kwargs)\n                except exc_type:\n                    is_last_attempt = attempt_index == attempts - 1\n                    if is_last_attempt:\n                        raise\n", "            for _ in range(attempts - 1):\n                try:\n                    return f(*args, **kwargs)\n                except exc_type:\n                    pass\n            return f(*args, **kwargs)\n"),
    ("retry.calls", Y, "            for attempt_index in range(attempts):\n                try:\n                    return f(*args, **kwargs)\n                except exc_type:\n                    is_last_attempt = attempt_index == attempts - 1\n                    if is_last_attempt:\n                        raise\n", "            remaining = attempts\n            while True:\n                remaining -= 1\n                try:\n                    return f(*args, **kwargs)\n                except exc_type:\n                    if remaining == 0:\n                        raise\n"),
    ("retry.calls", Y, "                    is_last_attempt = attempt_index == attempts - 1\n                    if is_last_attempt:\n                        raise\n", "                    if attempt_index + 1 < attempts:\n                        continue\n                    raise\n"),
    ("retry.calls", Y, "    if attempts == 1:\n        return identity\n", ""),
    ("retry.calls", Y, "                try:\n                    return f(*args, **kwargs)\n                except exc_type:\n                    is_last", "                try:\n                    result = f(*args, **kwargs)\n                    return result\n                except exc_type as e:\n                    is_last"),
    (W, R, "    def process_node(node):\n        nonlocal stop\n        nonlocal first_node_error\n        nonlocal error_count\n        if stop:\n            return\n        try:\n            fn(node)\n        except BaseException as exception:\n            with failure_lock:\n                error_count += 1\n                if not first_node_error:\n                    first_node_error = coerce_node_error(node, exception)\n                if max_errors is not None and error_count > max_errors:\n                    stop = True\n",
     "    def record_failure(node, exception):\n        nonlocal stop\n        nonlocal first_node_error\n        nonlocal error_count\n        with failure_lock:\n            error_count += 1\n            if not first_node_error:\n                first_node_error = coerce_node_error(node, exception)\n            if max_errors is not None and error_count > max_errors:\n                stop = True\n\n    def process_node(node):\n        if stop:\n            return\n        try:\n            fn(node)\n        except BaseException as exception:\n            record_failure(node, exception)\n"),
    (W, R, "                if successor in single_parent_nodes:\n                    queue.put(successor)\n                else:\n                    with remaining_pred_count_lock:\n                        remaining_pred_count_mapping[successor] -= 1\n                        if remaining_pred_count_mapping[successor] == 0:\n                            queue.put(successor)\n",
     "                if successor in single_parent_nodes:\n                    ready = True\n                else:\n                    with remaining_pred_count_lock:\n                        remaining_pred_count_mapping[successor] -= 1\n                        ready = remaining_pred_count_mapping[successor] == 0\n                if ready:\n                    queue.put(successor)\n"),
    (W, R, "                    with remaining_pred_count_lock:\n                        remaining_pred_count_mapping[successor] -= 1\n                        if remaining_pred_count_mapping[successor] == 0:\n                            queue.put(successor)\n",
     "                    with remaining_pred_count_lock:\n                        left = remaining_pred_count_mapping[successor] - 1\n                        remaining_pred_count_mapping[successor] = left\n                    if not left:\n                        queue.put(successor)\n"),
    (W, R, "            for successor in graph.successors(node):\n", "            for successor in list(graph.successors(node)):\n"),
    (W, R, "            for successor in graph.successors(node):\n", "            for successor in graph.succ[node]:\n"),
    (W, R, "    source_nodes = []\n    single_parent_nodes = set()\n    remaining_pred_count_mapping = {}\n    for node in graph:\n        count = predecessor_count(graph, node)\n        if count == 0:\n            source_nodes.append(node)\n        elif count == 1:\n            single_parent_nodes.add(node)\n        else:\n            remaining_pred_count_mapping[node] = count\n",
     "    counts = {node: predecessor_count(graph, node) for node in graph}\n    source_nodes = [node for node, count in counts.items() if count == 0]\n    single_parent_nodes = {node for node, count in counts.items() if count == 1}\n    remaining_pred_count_mapping = {\n        node: count for node, count in counts.items() if count > 1\n    }\n"),
    (W, R, "        if count == 0:\n            source_nodes.append(node)\n        elif count == 1:\n            single_parent_nodes.add(node)\n        else:\n            remaining_pred_count_mapping[node] = count\n",
     "        if count > 1:\n            remaining_pred_count_mapping[node] = count\n        elif count == 1:\n            single_parent_nodes.add(node)\n        else:\n            source_nodes.append(node)\n"),
    (W, R, "            item = queue.get()\n            try:\n                if item is DONE:\n                    return\n                process_item(item)\n            finally:\n                queue.task_done()\n",
     "            item = queue.get()\n            if item is DONE:\n                queue.task_done()\n                return\n            try:\n                process_item(item)\n            finally:\n                queue.task_done()\n"),
    (W, R, "    if first_node_error:\n        raise first_node_error\n", "    if first_node_error is not None:\n        raise first_node_error\n"),
    (W, R, "            for _ in range(worker_count):\n                worker = worker_thread(queue, process_node)\n                workers.append(worker)\n                worker.start()\n", "            for _ in range(worker_count):\n                workers.append(worker_thread(queue, process_node))\n                workers[-1].start()\n"),
    (W, R, "            for _ in range(worker_count):\n                worker = worker_thread(queue, process_node)\n                workers.append(worker)\n                worker.start()\n", "            for _ in range(worker_count):\n                workers.append(worker_thread(queue, process_node))\n            for worker in workers:\n                worker.start()\n"),
    (W, R, "        if stop:\n            return\n        try:\n            fn(node)\n        except BaseException as exception:", "        if not stop:\n            run_node(node)\n\n    def run_node(node):\n        nonlocal stop\n        nonlocal first_node_error\n        nonlocal error_count\n        try:\n            fn(node)\n        except BaseException as exception:"),
    (W, R, "    if worker_count is None:\n        # Matches concurrent.futures.ThreadPoolExecutor in Python 3.8+.\n        worker_count = min(32, (os.cpu_count() or 1) + 4)\n    worker_count = int(worker_count)\n", "    if worker_count is None:\n        worker_count = min((os.cpu_count() or 1) + 4, 32)\n    else:\n        worker_count = int(worker_count)\n"),
    (W, R, "                if max_errors is not None and error_count > max_errors:\n                    stop = True\n", "                if max_errors is None:\n                    pass\n                elif error_count > max_errors:\n                    stop = True\n"),
    (W, R, "    node_error = NodeError(node)\n    node_error.__cause__ = exception\n    return node_error\n", "    error = NodeError(node)\n    error.__cause__ = exception\n    return error\n"),
    (W, R, "    try:\n        worker.join()\n    except RuntimeError:\n        # The worker was not started.\n        pass\n", "    import contextlib\n\n    with contextlib.suppress(RuntimeError):\n        worker.join()\n"),
    (W, R, "        stop = True\n        for _ in workers:\n            queue.put(DONE)\n", "        stop = True\n        for _ in range(len(workers)):\n            queue.put(DONE)\n"),
    (W, R, "        # No worker can get an item until all workers are started.\n", "        assert workers == []\n"),
    (W, R, "        try:\n            fn(node)\n        except BaseException as exception:\n", "        try:\n            result = fn(node)\n            del result\n        except BaseException as exception:\n"),
    ("args.get_argument_nodes", H, "    args = []\n    keyword_arg_pairs = []\n    for _, _, edge_key in in_edges:\n        if type(edge_key) is PositionalArg:\n            args.append(None)\n        elif type(edge_key) is KeywordArg:\n            keyword_arg_pairs.append(None)\n",
     "    keys = [key for _, _, key in in_edges]\n    args = [None for key in keys if type(key) is PositionalArg]\n    keyword_arg_pairs = [None for key in keys if type(key) is KeywordArg]\n"),
    ("args.get_argument_nodes", H, "    args = []\n    keyword_arg_pairs = []\n", "    keyword_arg_pairs, args = [], []\n    edge_key = None\n"),
    ("args.get_argument_nodes", H, "        if type(edge_key) is PositionalArg:\n            args[edge_key.index] = predecessor\n        elif type(edge_key) is KeywordArg:\n            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor\n",
     "        if isinstance(edge_key, KeywordArg):\n            index = edge_key.index\n            keyword_arg_pairs[index] = (edge_key.name, predecessor)\n        if isinstance(edge_key, PositionalArg):\n            args[edge_key.index] = predecessor\n"),
    ("args.get_argument_nodes", H, "    return args, dict(keyword_arg_pairs)\n", "    keyword_args = {}\n    for name, node in keyword_arg_pairs:\n        keyword_args[name] = node\n    return args, keyword_args\n"),
    ("args.get_argument_nodes", H, "    return args, dict(keyword_arg_pairs)\n", "    return args, {name: node for name, node in keyword_arg_pairs}\n"),
    ("run.orchestration", N, "            if dry_run:\n                return plan, redirected_output_node\n\n            return run_physical(", "            if dry_run:\n                result = (plan, redirected_output_node)\n                return result\n            return run_physical("),
    ("run.orchestration", N, "    plan = get_mutable_plan(plan, inplace=False)\n", "    plan = plan.copy()\n"),
    ("run.orchestration", N, "            _update_run_totals(plan, progress_observer)\n", "            scope_counts = collections.Counter()\n            for node in plan.graph.nodes():\n                if type(node) is Call:\n                    scope_counts[get_full_call_scope(node)] += 1\n            for scope in scope_counts:\n                progress_observer.increment_total(section='run', scope=scope, amount=scope_counts[scope])\n"),
    ("run.orchestration", N, "    scope_counts = collections.Counter(\n        get_full_call_scope(node) for node in plan.graph.nodes() if type(node) is Call\n    )\n", "    calls = [node for node in plan.graph if isinstance(node, Call)]\n    scope_counts = collections.Counter(map(get_full_call_scope, calls))\n"),
    ("run.orchestration", N, "    output_node = (\n        plan._gather(get_stack_frame(), output) if output is not None else None\n    )\n", "    output_node = None\n    if output is not None:\n        frame = get_stack_frame()\n        output_node = plan._gather(frame, output)\n"),
    ("run.orchestration", N, "    try:\n        with progress_observer:\n            if registry:", "    try:\n        with progress_observer as _:\n            if registry is not None:"),
    ("run.orchestration", N, "    except NodeError as e:\n        raise CallError(e.node) from e.__cause__", "    except NodeError as e:\n        error = CallError(e.node)\n        error.__cause__ = e.__cause__\n        raise error"),
    ("run.orchestration", N, "    return create_retry(1 if retry is None else retry)", "    if retry is None:\n        return create_retry(1)\n    return create_retry(retry)"),
    ("scheduler.random", D, "        i = random.randrange(len(self.queue))\n        self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]\n", "        last = len(self.queue) - 1\n        i = random.randrange(last + 1)\n        other = self.queue[i]\n        self.queue[i] = self.queue[last]\n        self.queue[last] = other\n"),
    ("scheduler.random", D, "        self.queue = list(initial_items)\n        random.shuffle(self.queue)\n", "        items = [item for item in initial_items]\n        random.shuffle(items)\n        self.queue = items\n"),
    ("scheduler.random", D, "        self.queue.append(item)\n        i = random.randrange(len(self.queue))\n        self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]\n\n    def _get(self):\n        return self.queue.pop()\n",
     "        self.queue.append(item)\n\n    def _get(self):\n        return self.queue.pop(random.randrange(len(self.queue)))\n"),
    ("scheduler.default", D, "        self.queue = [KeyValuePair(priority(item), item) for item in initial_items]\n        heapify(self.queue)\n        self.unfinished_tasks = len(self.queue)\n        self.priority = priority\n",
     "        self.priority = priority\n        self.queue = [self._entry(item) for item in initial_items]\n        self.unfinished_tasks = len(self.queue)\n        heapify(self.queue)\n\n    def _entry(self, item):\n        return KeyValuePair(self.priority(item), item)\n"),
    ("scheduler.default", D, "        return heappop(self.queue).value\n", "        pair = heappop(self.queue)\n        return pair.value\n"),
    ("scheduler.cheap", D, "    queue.queue = deque(initial_items)\n    queue.unfinished_tasks = len(queue.queue)\n", "    queue.unfinished_tasks = len(initial_items)\n    queue.queue.extend(initial_items)\n"),
    ("graph.acyclic", X, "        for successor in succ[node]:\n            pred_count_mapping[successor] -= 1\n            if pred_count_mapping[successor] == 0:\n                q.append(successor)\n        yield node\n",
     "        yield node\n        for successor in graph.successors(node):\n            left = pred_count_mapping[successor] - 1\n            pred_count_mapping[successor] = left\n            if not left:\n                q.append(successor)\n"),
    ("graph.acyclic", X, "    for node in graph.nodes:\n        pred_count = len(pred[node])\n        if pred_count:\n            pred_count_mapping[node] = pred_count\n        else:\n            q.append(node)\n",
     "    for node in graph.nodes():\n        pred_count_mapping[node] = len(pred[node])\n        if not pred[node]:\n            q.append(node)\n"),
    ("graph.acyclic", X, "    if any(pred_count_mapping.values()):\n        raise", "    for count in pred_count_mapping.values():\n        if count > 0:\n            raise nx.HasACycle()\n    if False:\n        raise"),
    ("graph.acyclic", X, "    for _ in topological_sort(graph):\n        pass\n", "    list(topological_sort(graph))\n"),
    ("prune.ancestors", X, "    visited = set()\n    frontier = list(sources)\n    while frontier:\n        node = frontier.pop()\n        if node in visited:\n            continue\n        visited.add(node)\n        frontier.extend(graph.predecessors(node))\n    return visited",
     "    visited = set(sources)\n    frontier = list(visited)\n    while frontier:\n        node = frontier.pop()\n        for predecessor in graph.predecessors(node):\n            if predecessor not in visited:\n                visited.add(predecessor)\n                frontier.append(predecessor)\n    return visited"),
    ("prune.ancestors", X, "        if node in visited:\n            continue\n        visited.add(node)\n        frontier.extend(graph.predecessors(node))\n", "        if node not in visited:\n            visited.add(node)\n            frontier.extend(graph.predecessors(node))\n"),
    ("prune.ancestors", X, "        frontier.extend(graph.predecessors(node))\n", "        for predecessor in graph.pred[node]:\n            frontier.append(predecessor)\n"),
    ("prune.ancestors", X, "        frontier.extend(graph.predecessors(node))\n", "        frontier.extend(p for p in graph.predecessors(node) if p not in visited)\n"),
    ("prune.literal", U, "    if not all(\n        type(dependency) is Dependency\n        for _, _, dependency in plan.graph.out_edges(literal, keys=True)\n    ):\n        return\n",
     "    for _, _, dependency in plan.graph.out_edges(literal, keys=True):\n        if type(dependency) is not Dependency:\n            return\n"),
    ("prune.literal", U, "    for predecessor, successor in itertools.product(predecessors, successors):\n        plan.graph.add_edge(predecessor, successor, Dependency())\n    plan.graph.remove_node(literal)\n",
     "    graph = plan.graph\n    graph.remove_node(literal)\n    for predecessor in predecessors:\n        for successor in successors:\n            graph.add_edge(predecessor, successor, Dependency())\n"),
    ("prune.literal", U, "    m = len(predecessors)\n    n = len(successors)\n\n    if m * n > m + n:\n        return\n", "    if len(predecessors) * len(successors) > len(predecessors) + len(successors):\n        return\n"),
    ("prune.plan", U, "    for literal in [\n        u for u in plan.graph.nodes() if type(u) is Literal and u != output_node\n    ]:\n        _prune", "    literals = []\n    for u in plan.graph.nodes():\n        if type(u) is Literal and u is not output_node:\n            literals.append(u)\n    for literal in literals:\n        _prune"),
    ("prune.plan", U, "    prune_nodes = set(plan.graph.nodes()) - required_nodes\n    plan.graph.remove_nodes_from(prune_nodes)\n", "    for node in list(plan.graph.nodes()):\n        if node not in required_nodes:\n            plan.graph.remove_node(node)\n"),
    ("prune.plan", U, "    prune_nodes = set(plan.graph.nodes()) - required_nodes\n    plan.graph.remove_nodes_from(prune_nodes)\n", "    plan.graph.remove_nodes_from([u for u in plan.graph if u not in required_nodes])\n"),
    ("prune.sources", U, "    for node in source_literals:\n        graph.remove_node(node)\n", "    graph.remove_nodes_from(source_literals)\n"),
    ("stale.nodes", C, "        has_stale_ancestor = any(\n            stale_lookup[predecessor].value\n            for predecessor in plan.graph.predecessors(node)\n        )\n",
     "        has_stale_ancestor = False\n        for predecessor in plan.graph.predecessors(node):\n            if stale_lookup[predecessor].value:\n                has_stale_ancestor = True\n                break\n"),
    ("stale.nodes", C, "    return {k for k, v in stale_lookup.items() if v.value}", "    stale = set()\n    for k, v in stale_lookup.items():\n        if v.value:\n            stale.add(k)\n    return stale"),
    ("stale.nodes", C, "        if has_stale_ancestor:\n            stale_lookup[node].value = True\n        else:\n            process_no_stale_ancestor(node)",
     "        if not has_stale_ancestor:\n            process_no_stale_ancestor(node)\n            return\n        stale_lookup[node].value = True"),
    ("stale.nodes", C, "        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())", "        query = retry(value_store.get_modified_time)\n        raw = query()\n        modified_time = _to_naive_utc_time(raw)"),
    ("stale.nodes", C, "        if (\n            max_ancestor_modified_time or not registry.mapping[node].is_source\n        ) and safe_max(\n            modified_time, max_ancestor_modified_time, fresh_time\n        ) > modified_time:",
     "        examine = max_ancestor_modified_time or not registry.mapping[node].is_source\n        newest = safe_max(modified_time, max_ancestor_modified_time, fresh_time)\n        if examine and modified_time < newest:"),
    ("stale.nodes", C, "    stale_lookup = {node: Slot(False) for node in plan.graph.nodes()}\n    modified_time_lookup = {node: Slot() for node in plan.graph.nodes()}",
     "    stale_lookup = {}\n    modified_time_lookup = {}\n    for node in plan.graph:\n        stale_lookup[node] = Slot(False)\n        modified_time_lookup[node] = Slot()"),
    ("vstores.one", C, "        if dependency_type in (PositionalArg, KeywordArg):\n            plan.graph.add_edge(read_node, successor, dependency)\n        elif is_stale:\n            assert dependency_type is Dependency\n            plan.graph.add_edge(write_node, successor, dependency)",
     "        if dependency_type is not Dependency:\n            plan.graph.add_edge(read_node, successor, dependency)\n            continue\n        if write_node is not None:\n            plan.graph.add_edge(write_node, successor, dependency)"),
    ("vstores.one", C, "        dependency_type = type(dependency)\n        if dependency_type in (PositionalArg, KeywordArg):\n            plan.graph.add_edge(read_node, successor, dependency)\n        elif is_stale:\n            assert dependency_type is Dependency\n",
     "        if isinstance(dependency, (PositionalArg, KeywordArg)):\n            plan.graph.add_edge(read_node, successor, dependency)\n        elif is_stale:\n"),
    ("vstores.one", C, "            assert dependency_type is Dependency\n", ""),
    ("vstores.one", C, "    out_edges = list(plan.graph.out_edges(node, keys=True))\n    value_store = registry_value.value_store\n", "    value_store = registry_value.value_store\n    out_edges = [edge for edge in plan.graph.out_edges(node, keys=True)]\n"),
    ("vstores.plan", C, "    read_node_lookup = {}\n    required_nodes = set()\n    for node, registry_value in registry.mapping.items():\n        is_stale = node in stale_nodes\n        write_node, read_node = _add_value_store(\n            plan, node, registry_value, is_stale=is_stale\n        )\n        if write_node:\n            required_nodes.add(write_node)\n",
     "    required_nodes = []\n    read_node_lookup = {}\n    for node in list(registry.mapping):\n        write_node, read_node = _add_value_store(\n            plan, node, registry.mapping[node], is_stale=(node in stale_nodes)\n        )\n        if write_node is not None:\n            required_nodes.append(write_node)\n"),
    ("vstores.plan", C, "    if output_node:\n        output_node = read_node_lookup.get(output_node, output_node)\n", "    if output_node is not None and output_node in read_node_lookup:\n        output_node = read_node_lookup[output_node]\n"),
    ("vstores.plan", C, "    scope_counts = collections.Counter(\n        _get_stale_scope(node, registry)\n        for node in plan.graph.nodes()\n        if type(node) is Call\n    )\n",
     "    calls = [node for node in plan.graph if type(node) is Call]\n    scope_counts = collections.Counter(_get_stale_scope(call, registry) for call in calls)\n"),
]
MUTANTS = [
    ("physical", P, "        args = [arg.value for arg in self.args]\n", "        args = [arg.value for arg in reversed(self.args)]\n"),
    ("physical", P, "        kwargs = {name: arg.value for name, arg in self.kwargs.items()}\n", "        kwargs = {name: arg for name, arg in self.kwargs.items()}\n"),
    ("physical", P, "self.result.value = retry(fn)(*args, **kwargs)", "self.result.value = fn(*args, **kwargs)"),
    ("physical", P, "self.result.value = retry(fn)(*args, **kwargs)", "retry(fn)(*args, **kwargs)"),
    ("physical", P, "    result = result_lookup[call]\n    return", "    result = Slot(None)\n    return"),
    ("physical", P, "node if type(node) is Literal else Slot(None)", "node.value if type(node) is Literal else Slot(None)"),
    ("physical", P, "            finally:\n                bound_call.value = None\n", ""),
    ("physical", P, "            finally:\n                bound_call.value = None\n", "            else:\n                bound_call.value = None\n"),
    ("physical", P, "            progress_observer.increment_running(section=\"run\", scope=scope)\n", ""),
    ("physical", P, "progress_observer.increment_running(section=\"run\", scope=scope)", "progress_observer.increment_running(section=\"run\", scope=node.scope)"),
    ("physical", P, "                raise NodeError(node) from exception\n", "                raise NodeError(node) from None\n"),
    ("physical", P, "                raise NodeError(node) from exception\n", "                return\n"),
    ("physical", P, "except Exception as exception:\n                # Drop", "except ValueError as exception:\n                # Drop"),
    ("physical", P, "            progress_observer.increment_completed(section=\"run\", scope=scope)\n", "            if bound_call is None:\n                progress_observer.increment_completed(section=\"run\", scope=scope)\n"),
    ("physical", P, "exception=create_chained_call_error(node, exception)", "exception=exception"),
    ("physical", P, "    retry = retry or identity\n", "    retry = identity\n"),
    ("run.physical", P, "    return output_slot.value if output_slot else None\n", "    return output_slot.value or None if output_slot else None\n"),
    ("run.physical", P, "        max_errors=max_errors,\n        scheduler", "        scheduler"),
    ("run.physical", P, "        worker_count=max_workers,\n", "        worker_count=max_errors,\n"),
    ("run.physical", P, "        scheduler=scheduler,\n", ""),
    ("run.physical", P, "        inplace=inplace,\n        progress_observer=progress_observer,\n    )\n\n    run", "        inplace=True,\n        progress_observer=progress_observer,\n    )\n\n    run"),
    ("run.physical", P, "        retry=retry,\n        inplace", "        inplace"),
    ("plan.call", L, "PositionalArg(index)\n", "PositionalArg(0)\n"),
    ("plan.call", L, "KeywordArg(name, index)\n", "KeywordArg(name, index + 1)\n"),
    ("plan.call", L, "        for index, (name, arg) in enumerate(kwargs.items()):", "        for index, (name, arg) in enumerate(sorted(kwargs.items())):"),
    ("plan.call", L, "        call = Call(fn, scope=self._scope, stack_frame=stack_frame)\n", "        call = Call(fn, stack_frame=stack_frame)\n"),
    ("plan.call", L, "        call = Call(fn, scope=self._scope, stack_frame=stack_frame)\n", "        call = Call(fn, scope=self._scope)\n"),
    ("plan.call", L, "        self.graph.add_node(call)\n", ""),
    ("plan.call", L, "                self._gather(stack_frame, arg), call, PositionalArg(index)\n", "                call, self._gather(stack_frame, arg), PositionalArg(index)\n"),
    ("plan.call", L, "                self._gather(stack_frame, arg), call, PositionalArg(index)\n", "                self._gather(stack_frame, args[0]), call, PositionalArg(index)\n"),
    ("plan.gather", L, "if any(isinstance(child, Node) for child in children):", "if all(isinstance(child, Node) for child in children):"),
    ("plan.gather", L, "if any(isinstance(child, Node) for child in children):", "if children and isinstance(children[0], Node):"),
    ("plan.gather", L, "if any(isinstance(child, Node) for child in children):", "if children:"),
    ("plan.gather", L, "                    return self._call(stack_frame, gather_fn, *children)\n            return root\n", "                    return self._call(stack_frame, gather_fn, *children)\n                return root_type(children)\n            return root\n"),
    ("plan.gather", L, "items = root.items() if root_type is dict else root", "items = root"),
    ("plan.gather", L, "    tuple: _builtins.gather_tuple,\n", "    tuple: _builtins.gather_list,\n"),
    ("plan.gather", L, "    set: _builtins.gather_set,\n", ""),
    ("plan.gather", L, "            root_type = type(root)\n", "            root_type = next((t for t in GATHER_LOOKUP if isinstance(root, t)), None)\n"),
    ("plan.gather", L, "                children = [recurse(item) for item in items]\n", "                children = [recurse(item) for item in items if item is not None]\n"),
    ("plan.gather", L, "                children = [recurse(item) for item in items]\n", "                children = [recurse(item) for item in items]\n                children = children[::-1]\n"),
    ("plan.gather", L, "self._lit(stack_frame, value)\n\n", "self._lit(None, value)\n\n"),
    ("plan.gather", L, "return self._call(stack_frame, gather_fn, *children)", "return self._call(get_stack_frame(), gather_fn, *children)"),
    ("plan.lit", L, "        return self._lit(get_stack_frame(), value)\n", "        return self._lit(get_stack_frame(1), value)\n"),
    ("plan.lit", L, "        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)\n", "        literal = Literal(value, stack_frame=stack_frame)\n"),
    ("plan.lit", L, "        if isinstance(value, Node):\n            raise TypeError", "        if isinstance(value, Call):\n            raise TypeError"),
    ("plan.public_call", L, "        return self._call(get_stack_frame(), fn, *args, **kwargs)\n", "        return self._call(get_stack_frame(1), fn, *args, **kwargs)\n"),
    ("plan.public_call", L, "        validation.assert_can_bind(fn, *args, **kwargs)\n        return self._call(get_stack_frame(), fn, *args, **kwargs)\n", "        call = self._call(get_stack_frame(), fn, *args, **kwargs)\n        validation.assert_can_bind(fn, *args, **kwargs)\n        return call\n"),
    ("plan.public_gather", L, "        return self._gather(get_stack_frame(), value)\n", "        return self._gather(get_stack_frame(3), value)\n"),
    ("plan.unpack", L, "            for index in range(length)\n", "            for index in range(1, length + 1)\n"),
    ("plan.unpack", L, "            for index in range(length)\n", "            for index in reversed(range(length))\n"),
    ("plan.unpack", L, "_builtins.unpack, iterable, length)", "_builtins.unpack, iterable, length + 1)"),
    ("plan.unpack", L, "        stack_frame = get_stack_frame()\n        t =", "        stack_frame = get_stack_frame(3)\n        t ="),
    ("plan.add_dependency", L, "        for node in (source, target):\n            if not", "        for node in (source,):\n            if not"),
    ("plan.add_dependency", L, "        self.graph.add_edge(source, target, Dependency())", "        self.graph.add_edge(target, source, Dependency())"),
    ("plan.add_dependency", L, "        self.graph.add_edge(source, target, Dependency())", "        if not self.graph.has_edge(source, target):\n            self.graph.add_edge(source, target, Dependency())"),
    ("plan.scope", L, "            try:\n                yield\n            finally:\n                if self._scope != child_scope:\n                    raise Exception(\n                        \"Plan scopes must be entered and exited in stack order.\"\n                    )\n                self._scope = parent_scope\n", "            yield\n            self._scope = parent_scope\n"),
    ("plan.scope", L, "            child_scope = parent_scope + args\n", "            child_scope = args\n"),
    ("plan.scope", L, "                self._scope = parent_scope\n", "                self._scope = ()\n"),
    ("plan.copy", L, "        new_plan.graph = self.graph.copy()\n", "        new_plan.graph = self.graph\n"),
    ("plan.copy", L, "        new_plan.graph = self.graph.copy()\n", "        new_plan.graph.add_nodes_from(self.graph)\n"),
    ("registry.copy", G2, "            for node, registry_value in self.mapping.items()\n", "            for node, registry_value in self.mapping.items()\n            if not registry_value.is_source\n"),
    ("registry.copy", G2, "        new_registry.mapping = {\n            node: copy.copy(registry_value)\n            for node, registry_value in self.mapping.items()\n        }\n", "        new_registry.mapping = self.mapping\n"),
    ("registry.add", G2, "is_source=False, stack_frame=get_stack_frame()", "is_source=False, stack_frame=node.stack_frame"),
    ("registry.add", G2, "        if node in self.mapping:\n            raise Exception(\"The node already has a value store.\")\n", ""),
    ("registry.source", G2, "value_store, is_source=True, stack_frame=stack_frame", "value_store, is_source=True, stack_frame=None"),
    ("registry.source", G2, "is_source=True", "is_source=False"),
    ("registry.views", G2, "        v = self.mapping.get(node)\n        return v.value_store if v else None\n", "        v = self.mapping.get(node)\n        return v\n"),
    ("registry.views", G2, "for k, v in self.mapping.items()]", "for k, v in self.mapping.items() if not v.is_source]"),
    ("builtins.gather", B, "    return list(args)\n", "    return args\n"),
    ("builtins.gather", B, "    return dict(args)\n", "    return dict(reversed(args))\n"),
    ("builtins.gather", B, "    return tuple(args)\n", "    return args[::-1]\n"),
    ("builtins.unpack", B, "length + 1)", "length)"),
    ("builtins.unpack", B, "    if len(t) < length:", "    if not t:"),
    ("trace.capture", T, "initial_depth=2", "initial_depth=1"),
    ("trace.capture", T, "        if depth < 0:\n            return TruncatedStackFrame\n", "        if depth < 0:\n            return None\n"),
    ("trace.capture", T, "        if depth < 0:\n", "        if depth <= 0:\n"),
    ("trace.capture", T, "            line=frame.f_lineno,\n", "            line=frame.f_code.co_firstlineno,\n"),
    ("trace.capture", T, "outer=recurse(frame.f_back, depth - 1)", "outer=recurse(frame.f_back.f_back, depth - 1)"),
    ("trace.render", T, "in reversed(stack_frames)", "in stack_frames"),
    ("trace.render", T, "            stack_frames.append(stack_frame)\n            break\n        if", "            break\n        if"),
    ("trace.render", T, "line {s.line}, in {s.name}", "line {s.name}, in {s.line}"),
    ("edge.keys", H, "        return type(other) is PositionalArg and self.index == other.index\n", "        return type(other) is PositionalArg\n"),
    ("edge.keys", H, "        return type(other) is Dependency\n", "        return isinstance(other, Dependency)\n"),
    ("edge.keys", H, "            and self.index == other.index\n            and self.name", "            and self.name"),
    ("edge.keys", H, "        return hash((self.name, self.index))\n", "        return hash(self)\n"),
    ("errors.call_error", E, "        self.call = call\n", "        self.call = call.fn\n"),
    ("errors.call_error", E, "                    render_symbolic_traceback(call.stack_frame),\n", ""),
    ("errors.call_error", E, "    call_error.__cause__ = exception\n", ""),
    ("retry.calls", Y, "                    if is_last_attempt:\n                        raise\n", "                    if is_last_attempt:\n                        raise exc_type()\n"),
    ("retry.calls", Y, "attempt_index == attempts - 1", "attempt_index == attempts"),
    ("scheduler.random", D, "self.queue[i], self.queue[-1] = self.queue[-1], self.queue[i]", "self.queue[i] = self.queue[-1]"),
    ("scheduler.random", D, "random.randrange(len(self.queue))", "random.randrange(len(self.queue) + 1)"),
    ("scheduler.random", D, "        self.unfinished_tasks = len(self.queue)\n", ""),
    ("scheduler.default", D, "priority_mapping.get(node, -1)", "priority_mapping[node]"),
    ("scheduler.default", D, "priority_mapping.get(node, -1)", "priority_mapping.get(node)"),
    ("scheduler.default", D, "heappush(self.queue, KeyValuePair(self.priority(item), item))", "heappush(self.queue, KeyValuePair(item, self.priority(item)))"),
    ("scheduler.default", D, "        super().__init__()\n        self.queue = [KeyValuePair(priority(item), item) for item in initial_items]", "        super().__init__(len(initial_items))\n        self.queue = [KeyValuePair(priority(item), item) for item in initial_items]"),
    ("scheduler.default", D, "for item in initial_items]\n        heapify", "for item in initial_items if priority(item) >= 0]\n        heapify"),
    ("scheduler.default", D, "        heappush(self.queue, KeyValuePair(self.priority(item), item))", "        pair = KeyValuePair(self.priority(item), item)\n        if pair not in self.queue:\n            heappush(self.queue, pair)"),
    ("scheduler.cheap", D, "    queue.unfinished_tasks = len(queue.queue)\n", "    queue.unfinished_tasks = len(queue.queue) + 1\n"),
    ("scheduler.cheap", D, "deque(initial_items)", "deque(set(initial_items), 100)"),
    ("graph.acyclic", X, "            if pred_count_mapping[successor] == 0:", "            if pred_count_mapping[successor] <= 1:"),
    ("graph.acyclic", X, "            if pred_count_mapping[successor] == 0:", "            if pred_count_mapping[successor] == 1:"),
    ("graph.acyclic", X, "            pred_count_mapping[successor] -= 1\n", "            pred_count_mapping[successor] -= len(graph[node][successor])\n"),
    ("graph.acyclic", X, "        if pred_count:\n", "        if pred_count and node not in pred[node]:\n"),
    ("graph.acyclic", X, "    if any(pred_count_mapping.values()):\n", "    if all(pred_count_mapping.values()):\n"),
    ("graph.acyclic", X, "    if any(pred_count_mapping.values()):\n", "    if any(pred_count_mapping.values()) and q:\n"),
    ("graph.acyclic", X, "    if any(pred_count_mapping.values()):\n", "    if any(v > 1 for v in pred_count_mapping.values()):\n"),
    ("graph.acyclic", X, "    if any(pred_count_mapping.values()):\n", "    if pred_count_mapping:\n"),
    ("graph.acyclic", X, "    for _ in topological_sort(graph):\n        pass\n", "    next(topological_sort(graph), None)\n"),
    ("graph.acyclic", X, "        pred_count = len(pred[node])\n", "        pred_count = graph.in_degree(node)\n"),
    ("prune.ancestors", X, "frontier.extend(graph.predecessors(node))", "frontier.extend(graph.successors(node))"),
    ("prune.ancestors", X, "        visited.add(node)\n", "        if graph.pred[node]:\n            visited.add(node)\n"),
    ("prune.ancestors", X, "        if node in visited:\n            continue\n", ""),
    ("prune.ancestors", X, "        frontier.extend(graph.predecessors(node))\n", "        frontier = list(graph.predecessors(node))\n"),
    ("prune.ancestors", X, "            continue\n        visited.add(node)\n", "            break\n        visited.add(node)\n"),
    ("prune.literal", U, "    for predecessor, successor in itertools.product(predecessors, successors):\n        plan.graph.add_edge(predecessor, successor, Dependency())\n", ""),
    ("prune.literal", U, "    if literal in successors:\n        # Keep cycles so that they are reported.\n        return\n", ""),
    ("prune.literal", U, "    if not all(\n        type(dependency) is Dependency", "    if not any(\n        type(dependency) is Dependency"),
    ("prune.literal", U, "itertools.product(predecessors, successors)", "zip(predecessors, successors)"),
    ("prune.literal", U, "itertools.product(predecessors, successors)", "itertools.product(predecessors, successors[:1])"),
    ("prune.literal", U, "plan.graph.add_edge(predecessor, successor, Dependency())", "plan.graph.add_edge(successor, predecessor, Dependency())"),
    ("prune.literal", U, "    plan.graph.remove_node(literal)\n", ""),
    ("prune.plan", U, "and u != output_node", ""),
    ("prune.plan", U, "        required_nodes.add(output_node)\n", "        required_nodes = {output_node}\n"),
    ("prune.plan", U, "        required_nodes.add(output_node)\n", "        pass\n"),
    ("prune.plan", U, "    required_nodes = set(required_nodes)\n", ""),
    ("prune.plan", U, "if type(u) is Literal and u", "if u"),
    ("prune.plan", U, "set(plan.graph.nodes()) - required_nodes\n", "{u for u in plan.graph.nodes() if type(u) is not Literal} - required_nodes\n"),
    ("prune.plan", U, "get_mutable_plan(plan, inplace=inplace)\n    required", "plan\n    required"),
    ("prune.sources", U, "get_mutable_plan(plan, inplace=inplace)\n    graph", "plan\n    graph"),
    ("prune.sources", U, "is_source_node(graph, node)", "True"),
    ("prune.sources", U, "type(node) is Literal and", "node and"),
    ("prune.sources", U, "if predicate(node)]", "if not predicate(node)]"),
    ("prune.sources", X, "return not graph.pred[node]", "return not graph.succ[node]"),
    ("vstores.one", C, "if is_stale:\n            if registry_value", "if is_stale or registry_value.is_source:\n            if registry_value"),
    ("vstores.one", C, "plan.graph.add_edge(predecessor, write_node, Dependency())", "pass"),
    ("vstores.one", C, "            plan.graph.add_edge(write_node, read_node, Dependency())\n", ""),
    ("vstores.one", C, "        plan.graph.remove_edge(node, successor, dependency)\n", ""),
    ("vstores.one", C, "            plan.graph.add_edge(write_node, successor, dependency)", "            plan.graph.add_edge(read_node, successor, dependency)"),
    ("vstores.one", C, "            plan.graph.add_edge(read_node, successor, dependency)", "            plan.graph.add_edge(write_node or read_node, successor, dependency)"),
    ("vstores.one", C, "if dependency_type in (PositionalArg, KeywordArg):", "if dependency_type in (PositionalArg,):"),
    ("vstores.one", C, "value_store.__class__.write, value_store_lit, node", "value_store.__class__.write, node, value_store_lit"),
    ("vstores.one", C, "call.scope = get_full_call_scope(node)", "call.scope = node.scope"),
    ("vstores.one", C, "plan._call(registry_value.stack_frame, *args)", "plan._call(node.stack_frame, *args)"),
    ("vstores.one", C, "    out_edges = list(plan.graph.out_edges(node, keys=True))\n    value_store", "    out_edges = plan.graph.out_edges(node, keys=True)\n    value_store"),
    ("vstores.one", C, "for predecessor in plan.graph.predecessors(node):\n                    plan", "for predecessor in plan.graph.successors(node):\n                    plan"),
    ("vstores.one", C, "elif is_stale:", "elif is_stale and not registry_value.is_source:"),
    ("vstores.plan", C, "        if write_node:\n            required", "        if write_node and not registry_value.is_source:\n            required"),
    ("vstores.plan", C, "is_stale = node in stale_nodes", "is_stale = node in stale_nodes and node is not output_node"),
    ("vstores.plan", C, "read_node_lookup.get(output_node, output_node)", "output_node"),
    ("vstores.plan", C, "        read_node_lookup[node] = read_node\n", "        if is_stale:\n            read_node_lookup[node] = read_node\n"),
    ("vstores.plan", C, "plan = get_mutable_plan(plan, inplace=inplace)\n    stale", "plan = get_mutable_plan(plan, inplace=True)\n    stale"),
    ("vstores.plan", C, "        max_workers=max_workers,\n        retry", "        retry"),
    ("vstores.plan", C, "        fresh_time=fresh_time,\n        progress", "        progress"),
    ("vstores.plan", C, "output_node=output_node, inplace=True", "output_node=None, inplace=True"),
    ("vstores.plan", C, "required_nodes=required_nodes, output", "required_nodes=set(), output"),
    ("vstores.plan", C, "    prune_plan(\n        plan, required_nodes=required_nodes, output_node=output_node, inplace=True\n    )\n", ""),
    ("vstores.plan", C, "section=\"stale\", scope=scope, amount=count", "section=\"stale\", scope=scope, amount=1"),
    ("vstores.plan", C, "        if type(node) is Call\n    )", "    )"),
    ("vstores.plan", C, "        if type(node) is Call\n    )", "        if type(node) is Call and node in registry\n    )"),
    ("vstores.plan", C, "    _update_stale_totals(plan, registry, progress_observer)\n", ""),
    ("stale.nodes", C, "value.astimezone(dt.timezone.utc).replace(tzinfo=None)", "value.replace(tzinfo=None)"),
    ("stale.nodes", C, "value.astimezone(dt.timezone.utc).replace(tzinfo=None)", "(value if value.tzinfo is None else value.astimezone(dt.timezone.utc).replace(tzinfo=None))"),
    ("stale.nodes", C, "max_ancestor_modified_time or not registry.mapping[node].is_source", "not registry.mapping[node].is_source"),
    ("stale.nodes", C, ") > modified_time:", ") >= modified_time:"),
    ("stale.nodes", C, "            modified_time, max_ancestor_modified_time, fresh_time\n", "            modified_time, max_ancestor_modified_time\n"),
    ("stale.nodes", C, "            modified_time_lookup[node].value = max_ancestor_modified_time\n            return\n", "            return\n"),
    ("stale.nodes", C, "        modified_time_lookup[node].value = modified_time\n", "        modified_time_lookup[node].value = safe_max(modified_time, fresh_time)\n"),
    ("stale.nodes", C, "retry(value_store.get_modified_time)()", "value_store.get_modified_time()"),
    ("stale.nodes", C, "plan, inplace=False, predicate=lambda node: node not in registry", "plan, inplace=False"),
    ("stale.nodes", C, "plan, inplace=False, predicate=lambda node: node not in registry", "plan, inplace=True, predicate=lambda node: node not in registry"),
    ("stale.nodes", C, "                raise NodeError(node) from exception\n            progress", "            progress"),
    ("stale.nodes", C, "worker_count=max_workers, scheduler=", "scheduler="),
    ("stale.nodes", C, "stack_frame=node.stack_frame", "stack_frame=registry.mapping[node].stack_frame"),
    ("stale.nodes", C, "        if modified_time is None:\n            stale_lookup[node].value = True\n            return\n", "        if modified_time is None:\n            stale_lookup[node].value = not registry.mapping[node].is_source\n            return\n"),
    ("stale.nodes", C, "        has_stale_ancestor = any(", "        has_stale_ancestor = registry.get(node) is not None and any("),
    ("stale.nodes", C, "        has_stale_ancestor = any(", "        has_stale_ancestor = all("),
    ("run.orchestration", N, "plan = get_mutable_plan(plan, inplace=False)", "plan = get_mutable_plan(plan, inplace=registry is None)"),
    ("run.orchestration", N, "plan = get_mutable_plan(plan, inplace=False)", "plan = get_mutable_plan(plan, inplace=dry_run)"),
    ("run.orchestration", N, "                plan, redirected_output_node = transform_physical(\n", "                _, redirected_output_node = transform_physical(\n"),
    ("run.orchestration", N, "                return plan, redirected_output_node", "                return plan, output_node"),
    ("run.orchestration", N, "                output_node=redirected_output_node,", "                output_node=output_node,"),
    ("run.orchestration", N, "if type(node) is Call\n", "if node.scope or type(node) is Call\n"),
    ("run.orchestration", N, "                    max_workers=stale_check_max_workers,", "                    max_workers=max_workers,"),
    ("run.orchestration", N, "    if stale_check_max_workers is None:", "    if not stale_check_max_workers and max_errors == 0:"),
    ("run.orchestration", N, "                max_errors=max_errors,", "                max_errors=max_errors or 0,"),
    ("run.orchestration", N, "                    fresh_time=fresh_time,\n", ""),
    ("run.orchestration", N, "                retry=retry,\n                scheduler", "                scheduler"),
    ("run.orchestration", N, "    except NodeError as e:", "    except Exception as e:"),
    ("run.orchestration", N, "raise CallError(e.node) from e.__cause__", "raise CallError(e.node) from e"),
    ("run.orchestration", N, "            if registry:", "            if registry and not dry_run:"),
    ("run.orchestration", N, "                    plan, required_nodes=[], output_node=output_node, inplace=True", "                    plan, required_nodes=[], output_node=None, inplace=True"),
    ("run.orchestration", N, "        plan._gather(get_stack_frame(), output)", "        plan._gather(get_stack_frame(1), output)"),
    ("run.orchestration", N, "if output is not None else None", "if output else None"),
    ("run.orchestration", N, "    try:\n        with progress_observer:\n            if registry:", "    try:\n        progress_observer.__enter__()\n        if True:\n            if registry:"),
    ("args.get_argument_nodes", H, "        if type(edge_key) is PositionalArg:\n            args[edge_key.index] = predecessor", "        if type(edge_key) is PositionalArg:\n            args[-1 - edge_key.index] = predecessor"),
    ("args.get_argument_nodes", H, "        if type(edge_key) is PositionalArg:\n            args.append(None)\n", "        if type(edge_key) is not KeywordArg:\n            args.append(None)\n"),
    ("args.get_argument_nodes", H, "    return args, dict(keyword_arg_pairs)\n", "    return args, dict(reversed(keyword_arg_pairs))\n"),
    ("args.get_argument_nodes", H, "keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor", "keyword_arg_pairs[edge_key.index] = edge_key.name, call"),
    ("args.get_argument_nodes", H, "            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor", "            keyword_arg_pairs[edge_key.index - 1] = edge_key.name, predecessor"),
    ("args.get_argument_nodes", H, "            args[edge_key.index] = predecessor", "            args[0] = predecessor"),
    # unit, file, old, new
    ("retry.calls", "_util/retry.py", "== attempts - 1", "== attempts"),
    ("retry.calls", "_util/retry.py", "== attempts - 1", ">= attempts - 2"),
    ("retry.calls", "_util/retry.py", "return f(*args, **kwargs)", "f(*args, **kwargs)"),
    ("retry.calls", "_util/retry.py", "return f(*args, **kwargs)", "return f(*args)"),
    ("stores.atomic.JsonFileStore", "stores/_file_store.py", "os.replace(staging_path, path)", "pass"),
    ("pool.run.workers-limit", R, "                    with remaining_pred_count_lock:\n                        remaining_pred_count_mapping[successor] -= 1\n                        if remaining_pred_count_mapping[successor] == 0:\n                            queue.put(successor)",
     "                    remaining_pred_count_mapping[successor] -= 1\n                    if remaining_pred_count_mapping[successor] == 0:\n                        queue.put(successor)"),
    ("pool.run.workers-limit", R, "                        if remaining_pred_count_mapping[successor] == 0:\n                            queue.put(successor)",
     "                    if remaining_pred_count_mapping[successor] == 0:\n                        queue.put(successor)"),
    ("pool.run.workers-limit", R, "if remaining_pred_count_mapping[successor] == 0:", "if remaining_pred_count_mapping[successor] <= 1:"),
    ("pool.run.workers-limit", R, "except BaseException as exception:", "except Exception as exception:"),
    ("pool.run.workers-limit", R, "            finally:\n                queue.task_done()", "            except KeyError:\n                raise\n            queue.task_done()"),
    ("pool.run.workers-limit", R, "        for _ in workers:\n            queue.put(DONE)\n", ""),
    ("pool.run.workers-limit", R, "        for worker in workers:\n            join_worker(worker)\n", ""),
    ("pool.run.workers-limit", R, "        for _ in workers:\n            queue.put(DONE)\n        for worker in workers:\n            join_worker(worker)\n",
     "        for worker in workers:\n            queue.put(DONE)\n            join_worker(worker)\n"),
    ("pool.run.workers-limit", R, "error_count > max_errors", "error_count >= max_errors"),
    ("pool.run.workers-limit", R, "if not first_node_error:\n                    first", "if True:\n                    first"),
    ("pool.run.workers-limit", R, "            with failure_lock:\n                error_count += 1\n                if not", "            error_count += 1\n            with failure_lock:\n                if not"),
    ("pool.run.workers-limit", R, "        else:\n            for successor in graph", "        finally:\n            for successor in graph"),
    ("pool.run.workers-limit", R, "        queue.join()\n    finally", "    finally"),
    ("pool.run.workers-limit", R, "        stop = True\n        for _", "        for _"),
    ("pool.run.workers-limit", R, "        if stop:\n            return\n", ""),
    ("pool.run.workers-limit", R, "elif count == 1:", "elif count <= 2:"),
    ("pool.run.workers-limit", R, "    if first_node_error:\n        raise", "    if first_node_error and error_count > max_errors:\n        raise"),
    ("pool.run.workers-limit", R, "for _ in range(worker_count):", "for _ in range(worker_count - 1):"),
    ("pool.run.workers-limit", R, "if worker_count < 1:", "if worker_count < 0:"),
    ("pool.run.workers-limit", R, "                if item is DONE:\n                    return\n                process_item(item)", "                process_item(item)\n                if item is DONE:\n                    return"),
    ("pool.run.workers-limit", R, "        worker.start()\n        queue.join()", "        worker.start()"),
    ("pool.run.workers-limit", R, "    assert_acyclic(graph)\n", ""),
    ("pool.run.workers-limit", R, "        with queue.mutex:\n            for _ in range(worker_count):\n                worker = worker_thread(queue, process_node)\n                workers.append(worker)\n                worker.start()",
     "        for _ in range(worker_count):\n            worker = worker_thread(queue, process_node)\n            worker.start()\n            workers.append(worker)"),
    ("pool.run.workers-limit", R, "node_error = NodeError(node)", "node_error = NodeError(None)"),
    ("pool.run.workers-limit", R, "    node_error.__cause__ = exception\n", ""),
]

from . import selfcases_progress  # noqa: E402

SAME += selfcases_progress.SAME
MUTANTS += selfcases_progress.MUTANTS


def one(m):
    unit, file, old, new = m
    d = tempfile.mkdtemp(prefix="pyvc-self")
    try:
        shutil.copytree("/repo/src", d + "/src")
        p = f"{d}/src/uberjob/{file}"
        with open(p) as f:
            s = f.read()
        if old not in s:
            return False, f"STALE {unit} {file} {old}"
        with open(p, "w") as f:
            f.write(s.replace(old, new, 1))
        same = (unit, file, old, new) in SAME
        out = subprocess.run([sys.executable, "-c", "from pyvc.units import run_unit, UNITS; import sys; rs = [run_unit(u, 'quick') for u in UNITS if u == sys.argv[1] or u.startswith(sys.argv[1])]; "
                              "f = sorted({o['name'] for r in rs for o in r['obligations'] if o['status'] == 'failed'}); "
                              "u = sorted({o['name'] for r in rs for o in r['obligations'] if o['status'] == 'unknown'}); "
                              "print(len(f), '|', *[r['status'] + r['why'][-300:] for r in rs], '|', '; '.join(f)[:300], '| undecided:', '; '.join(u)[:100])", unit],
                             env=dict(os.environ, PYVC_REPO_SRC=d + "/src"), capture_output=True, text=True).stdout.strip()
        caught = bool(out) and not out.startswith("0 ")
        if same:
            caught = not caught
            return caught, f"{'quiet' if caught else 'ALARM'} {unit} :: {' '.join(old.split())[:60]} :: {out}"
        short = lambda t: " ".join(t.split())[:60]
        return caught, f"{'caught' if caught else 'MISSED'} {unit} :: {short(old)} -> {short(new)} :: {out}"
    finally:
        shutil.rmtree(d)


def main():
    pats = sys.argv[1:]
    todo = [m for m in SAME + MUTANTS if not pats or any(p in m[0] for p in pats)]
    bad = 0
    with ThreadPoolExecutor(8) as pool:
        for ok, text in pool.map(one, todo):
            bad += not ok
            print(text, flush=True)
    print(f"{len(todo) - bad} of {len(todo)} refused")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
