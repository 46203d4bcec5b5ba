"""Analysis context: the crate under analysis, contracts, specifications."""
import json
import os
import subprocess
import sys
import time
import mir
import roles as R
import spec as S
from interp import Interp


class Ctx:
    def __init__(self, crate, seed=1, debug=False):
        self.crate = crate
        self.seed = seed
        self.debug = debug
        self.used = {}
        self.limit = 60
        self.apps = {}
        self.colls = {}
        self.roles = R.build(crate)
        R.install_apps(self.apps)

    def interp(self, spec, it):
        I = Interp(self.crate, self.roles if spec.roles else {}, max_steps=spec.steps)
        if isinstance(spec.roles, dict):
            I.roles = dict(self.roles)
            I.roles.update(spec.roles)
        I.no_role = set(spec.off)
        I.ctx = self
        return I

    def items(self, spec):
        return sorted((it for it in self.crate.items.values() if it.body and spec.sel(it)), key=lambda i: i.path)
