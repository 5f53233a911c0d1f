from . import c05
from .. import oplib


class Prop(c05.Prop):
    def special(self, job):
        node = self.ctx.node()
        env = oplib.make_env(node.D)
        good = []
        for e in job['exprs']:
            try:
                eval(oplib.compiled(e), env)
                good.append(e)
            except node.D.DataShapeSyntaxError:
                if e in c05.ERRS:
                    good.append(e)
            except Exception:
                pass
        return {'good': good}
