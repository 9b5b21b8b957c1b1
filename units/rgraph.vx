%unit rgraph
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%include rg_defs.vx
%include rg_fns.vx
