"""Reference definitions: process collections. Never run; see sa/refcmp.py."""

import sys
from collections import Counter, defaultdict
from typing import Any

import networkx as nx

from b_asic.process import (
    MemoryInputPort,
    MemoryOutputPort,
    MemoryProcess,
    MemoryVariable,
    OperatorProcess,
    PlainMemoryVariable,
    Process,
)
from b_asic.resources import ProcessCollection


def ref(*a: Any, **k: Any) -> Any: ...


def _derived(self: ProcessCollection, items: Any) -> ProcessCollection:
    """A collection of other processes of the same schedule."""
    return ProcessCollection(items, self._schedule_time, self._cyclic)


def _writes(self: ProcessCollection) -> Any:
    return [p.start_time % self._schedule_time for p in self._collection]


def _reads(self: ProcessCollection) -> Any:
    return [t % self._schedule_time for p in self._collection for t in p.read_times]


@ref("b_asic.resources.ProcessCollection.__init__")
def collection(self: ProcessCollection, collection: Any, schedule_time: int, cyclic: bool = False) -> None:
    self._collection = list(collection)
    self._schedule_time = schedule_time
    self._cyclic = cyclic


@ref("b_asic.resources._sanitize_port_option")
def sanitize(read_ports: Any = None, write_ports: Any = None, total_ports: Any = None) -> Any:
    if total_ports is None:
        if read_ports is None or write_ports is None:
            raise ValueError()
        r, w, t = read_ports, write_ports, read_ports + write_ports
    else:
        r = read_ports if read_ports is not None else total_ports
        w = write_ports if write_ports is not None else total_ports
        t = total_ports
    if r > t or w > t:
        raise ValueError()
    return r, w, t


@ref("b_asic.resources.ProcessCollection.__len__")
def length(self: ProcessCollection) -> int:
    return len(self._collection)


@ref("b_asic.resources.ProcessCollection.__contains__")
def contains(self: ProcessCollection, process: Process) -> bool:
    return process in self._collection


@ref("b_asic.resources.ProcessCollection.__iter__")
def iterate(self: ProcessCollection) -> Any:
    return iter(self._collection)


@ref("b_asic.resources.ProcessCollection.add_process")
def add_process(self: ProcessCollection, process: Process) -> None:
    if process in self._collection:
        raise ValueError()
    self._collection.append(process)


@ref("b_asic.resources.ProcessCollection.remove_process")
def remove_process(self: ProcessCollection, process: Process) -> None:
    if process not in self._collection:
        raise KeyError()
    self._collection.remove(process)


@ref("b_asic.resources.ProcessCollection.find_by_time")
def find_by_time(self: ProcessCollection, time: int) -> ProcessCollection:
    return _derived(self, [p for p in self._collection if p.start_time == time])


@ref("b_asic.resources.ProcessCollection.from_name")
def from_name(self: ProcessCollection, name: str) -> Process:
    named = {p.name: p for p in self._collection}
    if name not in named:
        raise KeyError()
    return named[name]


@ref("b_asic.resources.ProcessCollection.get_by_type_name")
def get_by_type_name(self: ProcessCollection, type_name: Any) -> ProcessCollection:
    found = set()
    for p in self._collection:
        if isinstance(p, OperatorProcess) and p.operation.type_name() == type_name:
            found.add(p)
    return _derived(self, found)


@ref("b_asic.resources.ProcessCollection.get_by_type")
def get_by_type(self: ProcessCollection, process_type: Any) -> ProcessCollection:
    return _derived(self, {p for p in self._collection if isinstance(p.operation, process_type)})


@ref("b_asic.resources.ProcessCollection.read_port_accesses")
def read_port_accesses(self: ProcessCollection) -> Any:
    return dict(sorted(Counter(_reads(self)).items()))


@ref("b_asic.resources.ProcessCollection.write_port_accesses")
def write_port_accesses(self: ProcessCollection) -> Any:
    return dict(sorted(Counter(_writes(self)).items()))


@ref("b_asic.resources.ProcessCollection.total_port_accesses")
def total_port_accesses(self: ProcessCollection) -> Any:
    return dict(sorted(Counter(_writes(self) + _reads(self)).items()))


@ref("b_asic.resources.ProcessCollection.total_execution_times")
def total_execution_times(self: ProcessCollection) -> Any:
    busy = [(p.start_time + k) % self._schedule_time for p in self._collection for k in range(p.execution_time)]
    return dict(sorted(Counter(busy).items()))


@ref("b_asic.resources.ProcessCollection.processing_element_bound")
def processing_element_bound(self: ProcessCollection) -> int:
    return max(self.total_execution_times().values())


@ref("b_asic.resources.ProcessCollection.read_ports_bound")
def read_ports_bound(self: ProcessCollection) -> int:
    return max(self.read_port_accesses().values(), default=0)


@ref("b_asic.resources.ProcessCollection.write_ports_bound")
def write_ports_bound(self: ProcessCollection) -> int:
    return max(self.write_port_accesses().values(), default=0)


@ref("b_asic.resources.ProcessCollection.total_ports_bound")
def total_ports_bound(self: ProcessCollection) -> int:
    return max(self.total_port_accesses().values(), default=0)


@ref("b_asic.resources.ProcessCollection.split_on_length")
def split_on_length(self: ProcessCollection, length: int = 0) -> Any:
    low: list[Any] = []
    high: list[Any] = []
    for p in self._collection:
        if p.execution_time <= length:
            low.append(p)
        elif not isinstance(p, MemoryProcess):
            high.append(p)
        else:
            parts = p.split_on_length(length)
            if parts[0] is not None:
                low.append(parts[0])
            if parts[1] is not None:
                high.append(parts[1])
    return _derived(self, low), _derived(self, high)


@ref("b_asic.resources.ProcessCollection.split_on_type_name")
def split_on_type_name(self: ProcessCollection) -> Any:
    groups: dict[Any, Any] = {}
    for p in self:
        if not isinstance(p, OperatorProcess):
            raise ValueError()
        t = p.operation.type_name()
        if t not in groups:
            groups[t] = _derived(self, [])
        groups[t].add_process(p)
    return groups


def _slots(self: ProcessCollection, p: Process) -> Any:
    """Time slots of the period a process occupies."""
    end = p.start_time + p.execution_time
    return set(range(p.start_time, min(end, self._schedule_time))).union(set(range(end - self._schedule_time)))


@ref("b_asic.resources.ProcessCollection.exclusion_graph_from_execution_time")
def exclusion_graph_from_execution_time(self: ProcessCollection) -> Any:
    g = nx.Graph()
    g.add_nodes_from(self._collection)
    for a in self._collection:
        for b in self._collection:
            if a == b:
                continue
            if _slots(self, a).intersection(_slots(self, b)):
                g.add_edge(a, b)
    return g


@ref("b_asic.resources.ProcessCollection.exclusion_graph_from_ports")
def exclusion_graph_from_ports(self: ProcessCollection, read_ports: Any = None, write_ports: Any = None,
                               total_ports: Any = None) -> Any:
    r, w, t = sanitize(read_ports, write_ports, total_ports)
    if r != 1 or w != 1:
        raise ValueError()
    if t not in (1, 2):
        raise ValueError()
    g = nx.Graph()
    g.add_nodes_from(self._collection)
    for a in g:
        ra = {x % self._schedule_time for x in a.read_times}
        wa = a.start_time % self._schedule_time
        if t == 1 and a.start_time in ra:
            raise ValueError()
        for b in g:
            if a == b:
                continue
            rb = tuple(x % self._schedule_time for x in b.read_times)
            wb = b.start_time % self._schedule_time
            if w == 1 and wa == wb:
                g.add_edge(a, b)
            if r == 1 and ra.intersection(rb):
                g.add_edge(a, b)
            if t == 1 and (wa in rb or wb in ra):
                g.add_edge(a, b)
    return g


@ref("b_asic.resources.ProcessCollection._ports_collide")
def ports_collide(self: ProcessCollection, proc: Process, collection: ProcessCollection, write_ports: int,
                  read_ports: int, total_ports: int) -> bool:
    writes = defaultdict(int, collection.write_port_accesses())
    reads = defaultdict(int, collection.read_port_accesses())
    both = defaultdict(int, Counter(writes) + Counter(reads))
    if writes[proc.start_time % self._schedule_time] >= write_ports:
        return True
    if any(reads[t % self._schedule_time] >= read_ports for t in proc.read_times):
        return True
    return any(both[t % self._schedule_time] >= total_ports for t in [proc.start_time, *proc.read_times])


@ref("b_asic.resources.ProcessCollection._ports_collide",
     finding="the total number of accesses is looked up at times beyond the schedule time, where nothing is counted")
def ports_collide_as_tests_expect(self: ProcessCollection, proc: Process, collection: ProcessCollection,
                                  write_ports: int, read_ports: int, total_ports: int) -> bool:
    writes = defaultdict(int, collection.write_port_accesses())
    reads = defaultdict(int, collection.read_port_accesses())
    both = defaultdict(int, Counter(writes) + Counter(reads))
    if writes[proc.start_time] >= write_ports:
        return True
    if any(reads[t % self._schedule_time] >= read_ports for t in proc.read_times):
        return True
    return any(both[t] >= total_ports for t in [proc.start_time, *proc.read_times])


@ref("b_asic.resources.ProcessCollection.split_ports_sequentially", opaque=(
    "b_asic.resources.ProcessCollection._ports_collide",))
def split_ports_sequentially(self: ProcessCollection, read_ports: int, write_ports: int, total_ports: int,
                             sequence: Any) -> Any:
    if set(self._collection) != set(sequence):
        raise KeyError()
    parts: list[ProcessCollection] = []
    for p in sequence:
        done = False
        for c in parts:
            if not self._ports_collide(p, c, write_ports, read_ports, total_ports):
                c.add_process(p)
                done = True
                break
        if not done:
            parts.append(_derived(self, [p]))
    return parts


@ref("b_asic.resources.ProcessCollection._split_from_graph_coloring")
def split_from_graph_coloring(self: ProcessCollection, coloring: Any) -> Any:
    parts: list[list[Any]] = [[] for _ in range(max(coloring.values()) + 1)]
    for p, c in coloring.items():
        parts[c].append(p)
    return [_derived(self, x) for x in parts]


@ref("b_asic.resources.ProcessCollection._greedy_graph_color_assignment")
def greedy(self: ProcessCollection, coloring_strategy: str = "saturation_largest_first", *,
           coloring: Any = None) -> Any:
    for p in self:
        if p.execution_time > self._schedule_time:
            raise ValueError()
    cells: dict[int, ProcessCollection] = {}
    graph = self.exclusion_graph_from_execution_time()
    if coloring is None:
        coloring = nx.coloring.greedy_color(graph, strategy=coloring_strategy)
    for p, c in coloring.items():
        if c not in cells:
            cells[c] = _derived(self, [])
        cells[c].add_process(p)
    return list(cells.values())


@ref("b_asic.resources.ProcessCollection._left_edge_assignment")
def left_edge(self: ProcessCollection) -> Any:
    cells: list[ProcessCollection] = []
    for p in sorted(self):
        if p.execution_time > self._schedule_time:
            raise ValueError()
        if p.execution_time == self._schedule_time:
            cells.append(_derived(self, (p,)))
        else:
            stop = (p.start_time + p.execution_time) % self._schedule_time
            new = True
            for cell in cells:
                free = True
                for q in cell:
                    if p.start_time < q.start_time + q.execution_time:
                        free = False
                        break
                    if p.start_time > stop > q.start_time:
                        free = False
                        break
                if free:
                    cell.add_process(p)
                    new = False
                    break
            if new:
                cells.append(_derived(self, (p,)))
    return cells


@ref("b_asic.resources.ProcessCollection.split_on_execution_time")
def split_on_execution_time(self: ProcessCollection, strategy: str = "left_edge", alg_params: Any = None) -> Any:
    opts = alg_params or {}
    if strategy == "ilp_graph_color":
        return _opaque_ilp(self, opts.get("max_colors", None), opts.get("solver", None))
    if strategy == "greedy_graph_color":
        return greedy(self, opts.get("coloring_strategy", "saturation_largest_first"))
    if strategy == "left_edge":
        return left_edge(self)
    if strategy == "left_edge_min_mux":
        if opts.get("direct_variables", None) is None:
            raise ValueError()
        raise NotImplementedError()
    raise ValueError()


def _opaque_ilp(self: ProcessCollection, max_colors: Any, solver: Any) -> Any:
    return self._ilp_graph_color_assignment(max_colors, solver)
