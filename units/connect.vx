%unit connect
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%import rg_defs.vx
%import rg_fns.vx
%import rt_defs.vx
%include net_defs.vx
%include cn_fns.vx
