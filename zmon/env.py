"""In-process dask clusters (so that monitors see everything) and helpers."""
from __future__ import annotations
import os, dask, dask.distributed

LAYOUTS = [(1, 1), (1, 4), (2, 2), (3, 1), (4, 2), (2, 1), (1, 2), (3, 3)]


class Env:
    def __init__(self, layout=(1, 1), processes=False):
        self.layout, self.processes = layout, processes
        self.client = None
        self.start()

    def start(self):
        n, t = self.layout
        self.cluster = dask.distributed.LocalCluster(
            n_workers=n, threads_per_worker=t, processes=self.processes, dashboard_address=None,
            memory_limit=0, silence_logs=60)
        self.client = dask.distributed.Client(self.cluster, set_as_default=True)

    def restart(self):
        try:
            self.client.close(timeout=5)
            self.cluster.close(timeout=5)
        except Exception:
            pass
        self.start()

    def close(self):
        self.client.close()
        self.cluster.close()


def make(shard, processes=False):
    return Env(LAYOUTS[shard % len(LAYOUTS)], processes)
