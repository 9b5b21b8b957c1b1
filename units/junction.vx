%unit junction
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%import rg_defs.vx
%include rt_defs.vx
%include jn_fns.vx
