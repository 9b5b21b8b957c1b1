%unit print
%include p_core.vx
%file parser
%type Span
%enum Token noeq
%include ast_defs.vx
%include p_parse.vx
%file parser
%type ParseResult
%import lex_defs.vx
%import gram_defs.vx
%import spell_defs.vx
%include p_fmt.vx
%include show_defs.vx
%include sh_fns.vx
