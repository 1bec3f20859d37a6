# -*- coding: utf-8 -*-
import sys
sys.dont_write_bytecode = True
import os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ['VERIF_REPO'])
sys.path.insert(0, here)

import common


def main():
    prop, seed, tier, shard, nshards, out, scratch, beh = sys.argv[1:9]
    ctx = common.Ctx(prop, int(seed), tier, int(shard), int(nshards), out,
                     scratch, beh)
    # output of the code under test is not ours
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    if prop == 'C27':
        import overlap
        sys.meta_path.insert(0, overlap.Marked(os.environ['VERIF_REPO'], overlap.SCHEDULE.step))
    # an import error of the code under test is reported like a bad result
    try:
        import messaging.sms, messaging.utils, messaging.mms.message
        import messaging.mms.mms_pdu, messaging.mms.wsp_pdu, messaging.sms.wap
        import messaging.sms.udh, messaging.sms.gsm0338, messaging.mms.iterator
    except Exception, e:
        ctx.emit('import', exc=common.excnames(e))
        ctx.f.close()
        sys.stderr.write('import failed: %r\n' % (e,))
        os._exit(0)
    mod = __import__(prop.lower())
    try:
        mod.gen(ctx)
    except Exception, e:
        # what the driver relies on is the public interface: an exception
        # nobody expected is a result like any other
        import traceback
        traceback.print_exc()
        ctx.deadline = None
        ctx.emit('crash', exc=common.excnames(e),
                 at=''.join([c for c in repr(traceback.format_exc()[-1500:])
                             if 32 <= ord(c) < 127 and c not in '"\\']))
    ctx.f.close()
    real.write('EVENTS %d\n' % ctx.count)
    real.flush()
    os._exit(0)

main()
