from mods import longj
from mods.jobscommon import run
def check(c):
    run(c, 1)
    if not c.viol: longj.check(c, 1)
