from . import deps
deps.ensure()
