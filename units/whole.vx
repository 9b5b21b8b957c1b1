%unit whole
%literals
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%import erd_fns.vx
%import lay_defs.vx
%import place_fns.vx
%import port_defs.vx
%import port_fns.vx
%import rg_defs.vx
%import rg_fns.vx
%import rt_defs.vx
%import jn_fns.vx
%import net_defs.vx
%import spc_defs.vx
%import cn_fns.vx
%import walk_defs.vx
%import pa_fns.vx
%import way_defs.vx
%import rou_defs.vx
%include p_deque.vx
%import lnk_defs.vx
%import dr_fns.vx
%import pipe_fns.vx
%import pipe_lay.vx
%include p_svg.vx
%import ren_spec.vx
%import ren_fns.vx
%include whole_fns.vx
%include whole_draw.vx
