"""Running TLC and reading its verdicts."""
import json
import os
import re
import subprocess
import tempfile
import shutil
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self, rc, text):
        self.rc = rc
        self.text = text
        self.out = []
        for line in text.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                # PrintT shows a TLA+ string: quotes and backslashes are escaped
                self.out.append(json.loads(json.loads(line)[2:]))
        self.text = text = "\n".join(x for x in text.splitlines() if not x.strip().startswith('"@@'))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", text)
        self.generated, self.distinct, self.left = ([int(x.replace(",", "")) for x in m[-1]] if m else (0, 0, -1))
        self.ok = "Model checking completed. No error has been found." in text
        m = re.search(r"Invariant (\w+) is violated", text)
        self.violated = m.group(1) if m else None
        # the text of the trace does not fit an operator: an index, a field or a type that is not there
        self.evaluation_error = not self.ok and self.violated is None and bool(re.search(
            r"evaluating|Attempted to|non-existent|out of bounds|outside the domain|argument", text)) and not re.search(
            r"OutOfMemory|Java heap|StackOverflow|Parsing or semantic|could not be parsed|was not parsed", text)
        m = re.search(r"The number of states generated: ([\d,]+)", text)
        if m:
            self.generated = int(m.group(1).replace(",", ""))

    @property
    def left_states(self):
        return self.left


def run(module, cfg, env=None, workers="auto", timeout=800, simulate=None, mem="6g", extra=()):
    """Model-check spec/<module>.tla with the given text of the configuration file."""
    work = Path(tempfile.mkdtemp(prefix="tlc_"))
    try:
        cfgfile = work / f"{module}.cfg"
        cfgfile.write_text(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-cp", CP, f"-DTLA-Library={SPEC}",
               "tlc2.TLC", "-metadir", str(work / "meta"), "-deadlock", "-noGenerateSpecTE",
               "-workers", str(workers), "-config", str(cfgfile)]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [str(SPEC / f"{module}.tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, cwd=work)
        return TLCResult(p.returncode, p.stdout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
