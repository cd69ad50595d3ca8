------------------------------- MODULE Text -------------------------------
(* The text modules as machines: one operation, its outputs.                *)
EXTENDS TextBase
Start(c) == TokStart
Do(c, s, p) == CASE c = "str" -> Res(s, DoStr(p)) [] c = "enc" -> Res(s, DoEnc(p)) [] c = "url" -> Res(s, DoUrl(p))
                 [] c = "tok" -> DoTok(s, p) [] OTHER -> Res(s, DoUtf(p))
=============================================================================
