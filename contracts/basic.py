"""Contracts of BasicActivity."""

from .common import *


def add_logs_label(K, act):
    return lambda lab: label_ok(K, lab, "additional log", act.id)


@contract(
    "C05",
    "basic",
    ["openclsim.model.basic_activity.BasicActivity.main_process_function", "BasicActivity.__init__"],
)
def basic_main(K):
    import openclsim.model as model

    env, t0 = new_env(K)
    d = K.real("duration", lo=0)
    shape = K.choice("additional_logs", ["none", "empty", "watched"])
    watched = None
    holder = {}
    if shape == "watched":
        watched = GhostLog(K, lambda *a: holder["x"].on(*a), "x")
        logs = K.seq(
            ("run", "logsA", lambda i: AnonLog(K)), ("one", watched), ("run", "logsB", lambda i: AnonLog(K))
        )
    elif shape == "empty":
        logs = K.seq()
    else:
        logs = None
    act = model.BasicActivity(
        env=env, registry={}, name="act", id="act-id", duration=d, additional_logs=logs
    )
    K.check("init: additional_logs stored", shape == "none" or act.additional_logs is logs)
    main = Interval(K, env, "activity log", act.id, no_label)
    ghost_log(K, act, main.on)
    if watched is not None:
        holder["x"] = Interval(K, env, "additional log", act.id, add_logs_label(K, act))
    def before_post():
        K.check("STOP is logged before the after-plugins run", K.eq(main.g.phase, 2))
        if watched is not None:
            K.check("additional STOP is logged before the after-plugins run", K.eq(holder["x"].g.phase, 2))
    P = Plugins(K, env, act, on_post=before_post)
    drv = Driver(K, env)
    drv.run(act.main_process_function(activity_log=act, env=env))
    g = main.g
    K.check("START and STOP were logged", K.eq(g.phase, 2))
    K.check("START directly after the before-plugins", K.eq(g.t0, P.g.t_pre1))
    K.check("STOP exactly duration after START", K.eq(g.t1, g.t0 + d))
    K.check("plugins ran", K.and_(K.eq(P.g.pre, 1), K.eq(P.g.post, 1)))
    K.check("post_process told the true start", K.and_(K.eq(P.g.sa, g.t0), K.eq(P.g.sp, P.g.t_pre0)))
    K.check("post_process runs at STOP time", K.eq(P.g.t_post, g.t1))
    if watched is not None:
        x = holder["x"].g
        K.check("every additional log has START and STOP", K.eq(x.phase, 2))
        K.check("additional START/STOP coincide with the activity's", K.and_(K.eq(x.t0, g.t0), K.eq(x.t1, g.t1)))
