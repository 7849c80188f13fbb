import dom_geometry, dom_density, dom_math, dom_state, dom_track, dom_prop, dom_decay, dom_small, dom_reg, dom_objs, dom_util, dom_inter, dom_scat, dom_xs, dom_second, dom_docs, dom_interp, dom_keys
CHECKS = {}
for m in (dom_geometry, dom_density, dom_math, dom_state, dom_track, dom_prop, dom_decay, dom_small, dom_reg, dom_objs, dom_util, dom_inter, dom_scat, dom_xs, dom_second, dom_docs, dom_interp, dom_keys):
    CHECKS.update(m.CHECKS)
