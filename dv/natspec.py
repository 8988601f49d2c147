"""what a bounded companion is built from"""


class Native:
    def __init__(self, src, repo_srcs=(), san=True, opt="-O1", seconds=(60, 300), flags=()):
        self.src, self.repo_srcs, self.san, self.opt, self.seconds, self.flags = src, list(repo_srcs), san, opt, seconds, list(flags)
