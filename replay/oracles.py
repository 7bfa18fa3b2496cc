from replay import o_colloc, o_nlp, o_post, o_adapt, o_ocp, o_frame
ORACLES = {}
for m in (o_colloc, o_nlp, o_post, o_adapt, o_ocp, o_frame):
    ORACLES.update(m.ORACLES)
