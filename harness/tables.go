// Frozen by tools/gentables.py. Do not regenerate from a changed tree.
package main

// macroArgs gives the arguments of each macro of the supported syntax:
// A mandatory, O optional.
var macroArgs = map[string]string{
	`\ `: "",
	`\!`: "",
	`\#`: "",
	`\$`: "",
	`\%`: "",
	`\(`: "",
	`\)`: "",
	`\,`: "",
	`\:`: "",
	`\;`: "",
	`\AA`: "",
	`\AE`: "",
	`\Alpha`: "",
	`\BbbC`: "",
	`\BbbN`: "",
	`\BbbP`: "",
	`\BbbQ`: "",
	`\BbbR`: "",
	`\BbbZ`: "",
	`\Beta`: "",
	`\Bumpeq`: "",
	`\Cap`: "",
	`\Chi`: "",
	`\Colon`: "",
	`\Cup`: "",
	`\Delta`: "",
	`\Doteq`: "",
	`\Downarrow`: "",
	`\Epsilon`: "",
	`\Equiv`: "",
	`\Eta`: "",
	`\Finv`: "",
	`\Game`: "",
	`\Gamma`: "",
	`\H`: "",
	`\Im`: "",
	`\Iota`: "",
	`\Join`: "",
	`\Kappa`: "",
	`\L`: "",
	`\Lambda`: "",
	`\Ldsh`: "",
	`\Leftarrow`: "",
	`\Leftrightarrow`: "",
	`\Lleftarrow`: "",
	`\Longleftarrow`: "",
	`\Longleftrightarrow`: "",
	`\Longrightarrow`: "",
	`\Lsh`: "",
	`\Mu`: "",
	`\Nearrow`: "",
	`\Nu`: "",
	`\Nwarrow`: "",
	`\O`: "",
	`\OE`: "",
	`\Omega`: "",
	`\Omicron`: "",
	`\P`: "",
	`\Phi`: "",
	`\Pi`: "",
	`\Pr`: "",
	`\Psi`: "",
	`\Rdsh`: "",
	`\Re`: "",
	`\Rho`: "",
	`\Rightarrow`: "",
	`\Rrightarrow`: "",
	`\Rsh`: "",
	`\S`: "",
	`\Searrow`: "",
	`\Sigma`: "",
	`\Subset`: "",
	`\Supset`: "",
	`\Swarrow`: "",
	`\Tau`: "",
	`\Theta`: "",
	`\Thorn`: "",
	`\Uparrow`: "",
	`\Updownarrow`: "",
	`\Upsilon`: "",
	`\Vdash`: "",
	`\Vert`: "",
	`\Vvdash`: "",
	`\Xi`: "",
	`\Zeta`: "",
	`\_`: "",
	`\__sqrt__`: "",
	`\ac`: "",
	`\acute`: "",
	`\acwopencirclearrow`: "",
	`\adots`: "",
	`\ae`: "",
	`\aleph`: "",
	`\alpha`: "",
	`\amalg`: "",
	`\angle`: "",
	`\approx`: "",
	`\approxeq`: "",
	`\approxident`: "",
	`\arccos`: "",
	`\arceq`: "",
	`\arcsin`: "",
	`\arctan`: "",
	`\arg`: "",
	`\ast`: "",
	`\asterisk`: "",
	`\asymp`: "",
	`\backcong`: "",
	`\backepsilon`: "",
	`\backprime`: "",
	`\backsim`: "",
	`\backsimeq`: "",
	`\backslash`: "",
	`\bar`: "",
	`\barleftarrow`: "",
	`\barwedge`: "",
	`\bb`: "",
	`\because`: "",
	`\beta`: "",
	`\beth`: "",
	`\between`: "",
	`\bf`: "",
	`\bigcap`: "",
	`\bigcirc`: "",
	`\bigcup`: "",
	`\bigodot`: "",
	`\bigoplus`: "",
	`\bigotimes`: "",
	`\bigsqcup`: "",
	`\bigstar`: "",
	`\bigtriangledown`: "",
	`\bigtriangleup`: "",
	`\biguplus`: "",
	`\bigvee`: "",
	`\bigwedge`: "",
	`\binom`: "AA",
	`\blacksquare`: "",
	`\blacktriangle`: "",
	`\blacktriangledown`: "",
	`\blacktriangleleft`: "",
	`\blacktriangleright`: "",
	`\bot`: "",
	`\bowtie`: "",
	`\boxbar`: "",
	`\boxdot`: "",
	`\boxminus`: "",
	`\boxplus`: "",
	`\boxtimes`: "",
	`\breve`: "",
	`\bullet`: "",
	`\bumpeq`: "",
	`\c`: "",
	`\cal`: "",
	`\candra`: "",
	`\cap`: "",
	`\carriagereturn`: "",
	`\cdot`: "",
	`\cdotp`: "",
	`\cdots`: "",
	`\cent`: "",
	`\check`: "",
	`\checkmark`: "",
	`\chi`: "",
	`\circ`: "",
	`\circeq`: "",
	`\circlearrowleft`: "",
	`\circlearrowright`: "",
	`\circledR`: "",
	`\circledS`: "",
	`\circledast`: "",
	`\circledcirc`: "",
	`\circleddash`: "",
	`\circumflexaccent`: "",
	`\clubsuit`: "",
	`\clubsuitopen`: "",
	`\colon`: "",
	`\coloneq`: "",
	`\combiningacuteaccent`: "",
	`\combiningbreve`: "",
	`\combiningdiaeresis`: "",
	`\combiningdotabove`: "",
	`\combininggraveaccent`: "",
	`\combiningoverline`: "",
	`\combiningrightarrowabove`: "",
	`\combiningtilde`: "",
	`\complement`: "",
	`\cong`: "",
	`\coprod`: "",
	`\copyright`: "",
	`\cos`: "",
	`\cosh`: "",
	`\cot`: "",
	`\coth`: "",
	`\csc`: "",
	`\cup`: "",
	`\cupdot`: "",
	`\curlyeqprec`: "",
	`\curlyeqsucc`: "",
	`\curlyvee`: "",
	`\curlywedge`: "",
	`\curvearrowleft`: "",
	`\curvearrowright`: "",
	`\cwopencirclearrow`: "",
	`\d`: "",
	`\dag`: "",
	`\dagger`: "",
	`\daleth`: "",
	`\danger`: "",
	`\dashleftarrow`: "",
	`\dashrightarrow`: "",
	`\dashv`: "",
	`\ddag`: "",
	`\ddagger`: "",
	`\ddddot`: "",
	`\dddot`: "",
	`\ddot`: "",
	`\ddots`: "",
	`\default`: "",
	`\deg`: "",
	`\degree`: "",
	`\delta`: "",
	`\det`: "",
	`\dfrac`: "AA",
	`\diamond`: "",
	`\diamondsuit`: "",
	`\digamma`: "",
	`\dim`: "",
	`\div`: "",
	`\divideontimes`: "",
	`\dot`: "",
	`\doteq`: "",
	`\doteqdot`: "",
	`\dotminus`: "",
	`\dotplus`: "",
	`\dots`: "",
	`\doublebarwedge`: "",
	`\downarrow`: "",
	`\downdownarrows`: "",
	`\downharpoonleft`: "",
	`\downharpoonright`: "",
	`\downzigzagarrow`: "",
	`\ell`: "",
	`\emdash`: "",
	`\emptyset`: "",
	`\endash`: "",
	`\epsilon`: "",
	`\eqcirc`: "",
	`\eqcolon`: "",
	`\eqdef`: "",
	`\eqgtr`: "",
	`\eqless`: "",
	`\eqsim`: "",
	`\eqslantgtr`: "",
	`\eqslantless`: "",
	`\equal`: "",
	`\equiv`: "",
	`\eta`: "",
	`\eth`: "",
	`\exists`: "",
	`\exp`: "A",
	`\fallingdotseq`: "",
	`\flat`: "",
	`\forall`: "",
	`\frac`: "AA",
	`\frak`: "",
	`\frakC`: "",
	`\frakZ`: "",
	`\frown`: "",
	`\gamma`: "",
	`\gcd`: "",
	`\geq`: "",
	`\geqq`: "",
	`\geqslant`: "",
	`\gg`: "",
	`\ggg`: "",
	`\gimel`: "",
	`\gnapprox`: "",
	`\gneqq`: "",
	`\gnsim`: "",
	`\grave`: "",
	`\greater`: "",
	`\gtrapprox`: "",
	`\gtrdot`: "",
	`\gtreqless`: "",
	`\gtreqqless`: "",
	`\gtrless`: "",
	`\gtrsim`: "",
	`\guillemotleft`: "",
	`\guillemotright`: "",
	`\guilsinglleft`: "",
	`\guilsinglright`: "",
	`\hat`: "",
	`\hbar`: "",
	`\heartsuit`: "",
	`\hom`: "",
	`\hookleftarrow`: "",
	`\hookrightarrow`: "",
	`\hslash`: "",
	`\hspace`: "A",
	`\i`: "",
	`\iiint`: "",
	`\iint`: "",
	`\imageof`: "",
	`\imath`: "",
	`\in`: "",
	`\inf`: "",
	`\infty`: "",
	`\int`: "",
	`\intercal`: "",
	`\invnot`: "",
	`\iota`: "",
	`\it`: "",
	`\jmath`: "",
	`\k`: "",
	`\kappa`: "",
	`\ker`: "",
	`\kernelcontraction`: "",
	`\l`: "",
	`\lambda`: "",
	`\lambdabar`: "",
	`\langle`: "",
	`\lasp`: "",
	`\lbrace`: "",
	`\lbrack`: "",
	`\lceil`: "",
	`\ldotp`: "",
	`\ldots`: "",
	`\leadsto`: "",
	`\leftangle`: "",
	`\leftarrow`: "",
	`\leftarrowtail`: "",
	`\leftbrace`: "",
	`\leftharpoonaccent`: "",
	`\leftharpoondown`: "",
	`\leftharpoonup`: "",
	`\leftleftarrows`: "",
	`\leftparen`: "",
	`\leftrightarrow`: "",
	`\leftrightarrows`: "",
	`\leftrightharpoons`: "",
	`\leftrightsquigarrow`: "",
	`\leftsquigarrow`: "",
	`\leftthreetimes`: "",
	`\leq`: "",
	`\leqq`: "",
	`\leqslant`: "",
	`\less`: "",
	`\lessapprox`: "",
	`\lessdot`: "",
	`\lesseqgtr`: "",
	`\lesseqqgtr`: "",
	`\lessgtr`: "",
	`\lesssim`: "",
	`\lfloor`: "",
	`\lg`: "",
	`\lhd`: "",
	`\lim`: "",
	`\liminf`: "",
	`\limsup`: "",
	`\ll`: "",
	`\llcorner`: "",
	`\lll`: "",
	`\ln`: "",
	`\lnapprox`: "",
	`\lneqq`: "",
	`\lnsim`: "",
	`\log`: "",
	`\longleftarrow`: "",
	`\longleftrightarrow`: "",
	`\longmapsto`: "",
	`\longrightarrow`: "",
	`\looparrowleft`: "",
	`\looparrowright`: "",
	`\lq`: "",
	`\lrcorner`: "",
	`\ltimes`: "",
	`\macron`: "",
	`\maltese`: "",
	`\mapsdown`: "",
	`\mapsfrom`: "",
	`\mapsto`: "",
	`\mapsup`: "",
	`\mathbb`: "A",
	`\mathbf`: "A",
	`\mathcal`: "A",
	`\mathdefault`: "A",
	`\mathfrak`: "A",
	`\mathit`: "A",
	`\mathregular`: "A",
	`\mathscr`: "A",
	`\mathsf`: "A",
	`\mathtt`: "A",
	`\max`: "",
	`\measeq`: "",
	`\measuredangle`: "",
	`\mho`: "",
	`\mid`: "",
	`\min`: "",
	`\minus`: "",
	`\models`: "",
	`\mp`: "",
	`\mu`: "",
	`\multimap`: "",
	`\nLeftarrow`: "",
	`\nLeftrightarrow`: "",
	`\nRightarrow`: "",
	`\nVDash`: "",
	`\nVdash`: "",
	`\nabla`: "",
	`\napprox`: "",
	`\natural`: "",
	`\ncong`: "",
	`\ne`: "",
	`\nearrow`: "",
	`\neg`: "",
	`\neq`: "",
	`\nequiv`: "",
	`\nexists`: "",
	`\ngeq`: "",
	`\ngtr`: "",
	`\ni`: "",
	`\nleftarrow`: "",
	`\nleftrightarrow`: "",
	`\nleq`: "",
	`\nless`: "",
	`\nmid`: "",
	`\not`: "",
	`\notin`: "",
	`\nparallel`: "",
	`\nprec`: "",
	`\nrightarrow`: "",
	`\nsim`: "",
	`\nsime`: "",
	`\nsubset`: "",
	`\nsubseteq`: "",
	`\nsucc`: "",
	`\nsupset`: "",
	`\nsupseteq`: "",
	`\ntriangleleft`: "",
	`\ntrianglelefteq`: "",
	`\ntriangleright`: "",
	`\ntrianglerighteq`: "",
	`\nu`: "",
	`\nvDash`: "",
	`\nvdash`: "",
	`\nwarrow`: "",
	`\o`: "",
	`\obar`: "",
	`\ocirc`: "",
	`\odot`: "",
	`\oe`: "",
	`\oiiint`: "",
	`\oiint`: "",
	`\oint`: "",
	`\omega`: "",
	`\omicron`: "",
	`\ominus`: "",
	`\operatorname`: "A",
	`\oplus`: "",
	`\origof`: "",
	`\oslash`: "",
	`\otimes`: "",
	`\overarc`: "",
	`\overleftarrow`: "",
	`\overleftrightarrow`: "",
	`\overline`: "A",
	`\parallel`: "",
	`\partial`: "",
	`\perp`: "",
	`\perthousand`: "",
	`\phi`: "",
	`\pi`: "",
	`\pitchfork`: "",
	`\plus`: "",
	`\pm`: "",
	`\prec`: "",
	`\precapprox`: "",
	`\preccurlyeq`: "",
	`\preceq`: "",
	`\precnapprox`: "",
	`\precnsim`: "",
	`\precsim`: "",
	`\prime`: "",
	`\prod`: "",
	`\propto`: "",
	`\prurel`: "",
	`\psi`: "",
	`\qquad`: "",
	`\quad`: "",
	`\questeq`: "",
	`\rangle`: "",
	`\rasp`: "",
	`\rbrace`: "",
	`\rbrack`: "",
	`\rceil`: "",
	`\regular`: "",
	`\rfloor`: "",
	`\rhd`: "",
	`\rho`: "",
	`\rightangle`: "",
	`\rightarrow`: "",
	`\rightarrowbar`: "",
	`\rightarrowtail`: "",
	`\rightbrace`: "",
	`\rightharpoonaccent`: "",
	`\rightharpoondown`: "",
	`\rightharpoonup`: "",
	`\rightleftarrows`: "",
	`\rightleftharpoons`: "",
	`\rightparen`: "",
	`\rightrightarrows`: "",
	`\rightsquigarrow`: "",
	`\rightthreetimes`: "",
	`\rightzigzagarrow`: "",
	`\ring`: "",
	`\risingdotseq`: "",
	`\rm`: "",
	`\rq`: "",
	`\rtimes`: "",
	`\scr`: "",
	`\scrB`: "",
	`\scrE`: "",
	`\scrF`: "",
	`\scrH`: "",
	`\scrI`: "",
	`\scrL`: "",
	`\scrM`: "",
	`\scrR`: "",
	`\scre`: "",
	`\scrg`: "",
	`\scro`: "",
	`\scurel`: "",
	`\searrow`: "",
	`\sec`: "",
	`\setminus`: "",
	`\sf`: "",
	`\sharp`: "",
	`\sigma`: "",
	`\sim`: "",
	`\simeq`: "",
	`\sin`: "",
	`\sinh`: "",
	`\slash`: "",
	`\smallsetminus`: "",
	`\smile`: "",
	`\solbar`: "",
	`\spadesuit`: "",
	`\spadesuitopen`: "",
	`\sphericalangle`: "",
	`\sqcap`: "",
	`\sqcup`: "",
	`\sqrt`: "OA",
	`\sqsubset`: "",
	`\sqsubseteq`: "",
	`\sqsupset`: "",
	`\sqsupseteq`: "",
	`\ss`: "",
	`\stackrel`: "AA",
	`\star`: "",
	`\stareq`: "",
	`\sterling`: "",
	`\subset`: "",
	`\subseteq`: "",
	`\subseteqq`: "",
	`\subsetneq`: "",
	`\subsetneqq`: "",
	`\succ`: "",
	`\succapprox`: "",
	`\succcurlyeq`: "",
	`\succeq`: "",
	`\succnapprox`: "",
	`\succnsim`: "",
	`\succsim`: "",
	`\sum`: "",
	`\sup`: "",
	`\supset`: "",
	`\supseteq`: "",
	`\supseteqq`: "",
	`\supsetneq`: "",
	`\supsetneqq`: "",
	`\swarrow`: "",
	`\t`: "",
	`\tan`: "",
	`\tanh`: "",
	`\tau`: "",
	`\textasciiacute`: "",
	`\textasciicircum`: "",
	`\textasciigrave`: "",
	`\textasciitilde`: "",
	`\textbb`: "A",
	`\textbf`: "A",
	`\textcal`: "A",
	`\textdefault`: "A",
	`\textexclamdown`: "",
	`\textfrak`: "A",
	`\textit`: "A",
	`\textquestiondown`: "",
	`\textquotedblleft`: "",
	`\textquotedblright`: "",
	`\textregular`: "A",
	`\textscr`: "A",
	`\textsf`: "A",
	`\texttt`: "A",
	`\tfrac`: "AA",
	`\therefore`: "",
	`\theta`: "",
	`\thickspace`: "",
	`\thorn`: "",
	`\tilde`: "",
	`\times`: "",
	`\to`: "",
	`\top`: "",
	`\triangledown`: "",
	`\triangleeq`: "",
	`\triangleleft`: "",
	`\trianglelefteq`: "",
	`\triangleq`: "",
	`\triangleright`: "",
	`\trianglerighteq`: "",
	`\tt`: "",
	`\turnednot`: "",
	`\twoheaddownarrow`: "",
	`\twoheadleftarrow`: "",
	`\twoheadrightarrow`: "",
	`\twoheaduparrow`: "",
	`\ulcorner`: "",
	`\underbar`: "",
	`\unlhd`: "",
	`\unrhd`: "",
	`\uparrow`: "",
	`\updownarrow`: "",
	`\updownarrowbar`: "",
	`\updownarrows`: "",
	`\upharpoonleft`: "",
	`\upharpoonright`: "",
	`\uplus`: "",
	`\upsilon`: "",
	`\upuparrows`: "",
	`\urcorner`: "",
	`\vDash`: "",
	`\varepsilon`: "",
	`\varkappa`: "",
	`\varnothing`: "",
	`\varphi`: "",
	`\varpi`: "",
	`\varpropto`: "",
	`\varrho`: "",
	`\varsigma`: "",
	`\vartheta`: "",
	`\vartriangle`: "",
	`\vartriangleleft`: "",
	`\vartriangleright`: "",
	`\vdash`: "",
	`\vdots`: "",
	`\vec`: "",
	`\vee`: "",
	`\veebar`: "",
	`\veeeq`: "",
	`\vert`: "",
	`\wedge`: "",
	`\wedgeq`: "",
	`\widebar`: "",
	`\widehat`: "",
	`\widetilde`: "",
	`\wp`: "",
	`\wr`: "",
	`\xi`: "",
	`\yen`: "",
	`\zeta`: "",
	`\{`: "",
	`\|`: "",
	`\}`: "",
}

// symRune is the Unicode character of each TeX symbol name.
var symRune = map[string]rune{
	`#`: 0x0023,
	`$`: 0x0024,
	`%`: 0x0025,
	`(`: 0x0028,
	`)`: 0x0029,
	`AA`: 0x00C5,
	`AE`: 0x00C6,
	`BbbC`: 0x2102,
	`BbbN`: 0x2115,
	`BbbP`: 0x2119,
	`BbbQ`: 0x211A,
	`BbbR`: 0x211D,
	`BbbZ`: 0x2124,
	`Bumpeq`: 0x224E,
	`Cap`: 0x22D2,
	`Colon`: 0x2237,
	`Cup`: 0x22D3,
	`Delta`: 0x0394,
	`Doteq`: 0x2251,
	`Downarrow`: 0x21D3,
	`Equiv`: 0x2263,
	`Finv`: 0x2132,
	`Game`: 0x2141,
	`Gamma`: 0x0393,
	`H`: 0x030B,
	`Im`: 0x2111,
	`Join`: 0x2A1D,
	`L`: 0x0141,
	`Lambda`: 0x039B,
	`Ldsh`: 0x21B2,
	`Leftarrow`: 0x21D0,
	`Leftrightarrow`: 0x21D4,
	`Lleftarrow`: 0x21DA,
	`Longleftarrow`: 0x27F8,
	`Longleftrightarrow`: 0x27FA,
	`Longrightarrow`: 0x27F9,
	`Lsh`: 0x21B0,
	`Nearrow`: 0x21D7,
	`Nwarrow`: 0x21D6,
	`O`: 0x00D8,
	`OE`: 0x0152,
	`Omega`: 0x03A9,
	`P`: 0x00B6,
	`Phi`: 0x03A6,
	`Pi`: 0x03A0,
	`Psi`: 0x03A8,
	`Rdsh`: 0x21B3,
	`Re`: 0x211C,
	`Rightarrow`: 0x21D2,
	`Rrightarrow`: 0x21DB,
	`Rsh`: 0x21B1,
	`S`: 0x00A7,
	`Searrow`: 0x21D8,
	`Sigma`: 0x03A3,
	`Subset`: 0x22D0,
	`Supset`: 0x22D1,
	`Swarrow`: 0x21D9,
	`Theta`: 0x0398,
	`Thorn`: 0x00DE,
	`Uparrow`: 0x21D1,
	`Updownarrow`: 0x21D5,
	`Upsilon`: 0x03A5,
	`Vdash`: 0x22A9,
	`Vert`: 0x2016,
	`Vvdash`: 0x22AA,
	`Xi`: 0x039E,
	`_`: 0x005F,
	`__sqrt__`: 0x221A,
	`ac`: 0x223E,
	`acute`: 0x0301,
	`acwopencirclearrow`: 0x21BA,
	`adots`: 0x22F0,
	`ae`: 0x00E6,
	`aleph`: 0x2135,
	`alpha`: 0x03B1,
	`angle`: 0x2220,
	`approx`: 0x2248,
	`approxeq`: 0x224A,
	`approxident`: 0x224B,
	`arceq`: 0x2258,
	`ast`: 0x2217,
	`asterisk`: 0x002A,
	`asymp`: 0x224D,
	`backcong`: 0x224C,
	`backepsilon`: 0x03F6,
	`backprime`: 0x2035,
	`backsim`: 0x223D,
	`backsimeq`: 0x22CD,
	`backslash`: 0x005C,
	`bar`: 0x0304,
	`barleftarrow`: 0x21E4,
	`barwedge`: 0x22BC,
	`because`: 0x2235,
	`beta`: 0x03B2,
	`beth`: 0x2136,
	`between`: 0x226C,
	`bigcap`: 0x22C2,
	`bigcirc`: 0x25CB,
	`bigcup`: 0x22C3,
	`bigodot`: 0x2A00,
	`bigoplus`: 0x2A01,
	`bigotimes`: 0x2A02,
	`bigstar`: 0x2605,
	`bigtriangledown`: 0x25BD,
	`bigtriangleup`: 0x25B3,
	`biguplus`: 0x2A04,
	`bigvee`: 0x22C1,
	`bigwedge`: 0x22C0,
	`blacksquare`: 0x25A0,
	`blacktriangle`: 0x25B4,
	`blacktriangledown`: 0x25BE,
	`blacktriangleleft`: 0x25C0,
	`blacktriangleright`: 0x25B6,
	`bot`: 0x22A5,
	`bowtie`: 0x22C8,
	`boxbar`: 0x25EB,
	`boxdot`: 0x22A1,
	`boxminus`: 0x229F,
	`boxplus`: 0x229E,
	`boxtimes`: 0x22A0,
	`breve`: 0x0306,
	`bullet`: 0x2219,
	`bumpeq`: 0x224F,
	`c`: 0x0327,
	`candra`: 0x0310,
	`cap`: 0x2229,
	`carriagereturn`: 0x21B5,
	`cdot`: 0x22C5,
	`cdotp`: 0x00B7,
	`cdots`: 0x22EF,
	`cent`: 0x00A2,
	`check`: 0x030C,
	`checkmark`: 0x2713,
	`chi`: 0x03C7,
	`circ`: 0x2218,
	`circeq`: 0x2257,
	`circlearrowleft`: 0x21BA,
	`circlearrowright`: 0x21BB,
	`circledR`: 0x00AE,
	`circledS`: 0x24C8,
	`circledast`: 0x229B,
	`circledcirc`: 0x229A,
	`circleddash`: 0x229D,
	`circumflexaccent`: 0x0302,
	`clubsuit`: 0x2663,
	`clubsuitopen`: 0x2667,
	`colon`: 0x003A,
	`coloneq`: 0x2254,
	`combiningacuteaccent`: 0x0301,
	`combiningbreve`: 0x0306,
	`combiningdiaeresis`: 0x0308,
	`combiningdotabove`: 0x0307,
	`combininggraveaccent`: 0x0300,
	`combiningoverline`: 0x0304,
	`combiningrightarrowabove`: 0x20D7,
	`combiningtilde`: 0x0303,
	`complement`: 0x2201,
	`cong`: 0x2245,
	`coprod`: 0x2210,
	`copyright`: 0x00A9,
	`cup`: 0x222A,
	`cupdot`: 0x228D,
	`curlyeqprec`: 0x22DE,
	`curlyeqsucc`: 0x22DF,
	`curlyvee`: 0x22CE,
	`curlywedge`: 0x22CF,
	`curvearrowleft`: 0x21B6,
	`curvearrowright`: 0x21B7,
	`cwopencirclearrow`: 0x21BB,
	`d`: 0x0323,
	`dag`: 0x2020,
	`dagger`: 0x2020,
	`daleth`: 0x2138,
	`danger`: 0x2621,
	`dashleftarrow`: 0x290E,
	`dashrightarrow`: 0x290F,
	`dashv`: 0x22A3,
	`ddag`: 0x2021,
	`ddddot`: 0x20DC,
	`dddot`: 0x20DB,
	`ddot`: 0x0308,
	`ddots`: 0x22F1,
	`degree`: 0x00B0,
	`delta`: 0x03B4,
	`diamond`: 0x22C4,
	`diamondsuit`: 0x2662,
	`digamma`: 0x03DD,
	`div`: 0x00F7,
	`divideontimes`: 0x22C7,
	`dot`: 0x0307,
	`doteq`: 0x2250,
	`doteqdot`: 0x2251,
	`dotminus`: 0x2238,
	`dotplus`: 0x2214,
	`dots`: 0x2026,
	`doublebarwedge`: 0x2306,
	`downarrow`: 0x2193,
	`downdownarrows`: 0x21CA,
	`downharpoonleft`: 0x21C3,
	`downharpoonright`: 0x21C2,
	`downzigzagarrow`: 0x21AF,
	`ell`: 0x2113,
	`emdash`: 0x2014,
	`emptyset`: 0x2205,
	`endash`: 0x2013,
	`epsilon`: 0x03B5,
	`eqcirc`: 0x2256,
	`eqcolon`: 0x2255,
	`eqdef`: 0x225D,
	`eqgtr`: 0x22DD,
	`eqless`: 0x22DC,
	`eqsim`: 0x2242,
	`eqslantgtr`: 0x2A96,
	`eqslantless`: 0x2A95,
	`equal`: 0x003D,
	`equiv`: 0x2261,
	`eta`: 0x03B7,
	`eth`: 0x00F0,
	`exists`: 0x2203,
	`fallingdotseq`: 0x2252,
	`flat`: 0x266D,
	`forall`: 0x2200,
	`frakC`: 0x212D,
	`frakZ`: 0x2128,
	`frown`: 0x2322,
	`gamma`: 0x03B3,
	`geq`: 0x2265,
	`geqq`: 0x2267,
	`geqslant`: 0x2A7E,
	`gg`: 0x226B,
	`ggg`: 0x22D9,
	`gimel`: 0x2137,
	`gnapprox`: 0x2A8A,
	`gneqq`: 0x2269,
	`gnsim`: 0x22E7,
	`grave`: 0x0300,
	`greater`: 0x003E,
	`gtrapprox`: 0x2A86,
	`gtrdot`: 0x22D7,
	`gtreqless`: 0x22DB,
	`gtreqqless`: 0x2A8C,
	`gtrless`: 0x2277,
	`gtrsim`: 0x2273,
	`guillemotleft`: 0x00AB,
	`guillemotright`: 0x00BB,
	`guilsinglleft`: 0x2039,
	`guilsinglright`: 0x203A,
	`hat`: 0x0302,
	`hbar`: 0x0127,
	`heartsuit`: 0x2661,
	`hookleftarrow`: 0x21A9,
	`hookrightarrow`: 0x21AA,
	`hslash`: 0x210F,
	`i`: 0x0131,
	`iiint`: 0x222D,
	`iint`: 0x222C,
	`imageof`: 0x22B7,
	`imath`: 0x0131,
	`in`: 0x2208,
	`infty`: 0x221E,
	`int`: 0x222B,
	`intercal`: 0x22BA,
	`invnot`: 0x2310,
	`iota`: 0x03B9,
	`jmath`: 0x0237,
	`k`: 0x0328,
	`kappa`: 0x03BA,
	`kernelcontraction`: 0x223B,
	`l`: 0x0142,
	`lambda`: 0x03BB,
	`lambdabar`: 0x019B,
	`langle`: 0x27E8,
	`lasp`: 0x02BD,
	`lbrace`: 0x007B,
	`lbrack`: 0x005B,
	`lceil`: 0x2308,
	`ldots`: 0x2026,
	`leadsto`: 0x21DD,
	`leftangle`: 0x27E8,
	`leftarrow`: 0x2190,
	`leftarrowtail`: 0x21A2,
	`leftbrace`: 0x007B,
	`leftharpoonaccent`: 0x20D0,
	`leftharpoondown`: 0x21BD,
	`leftharpoonup`: 0x21BC,
	`leftleftarrows`: 0x21C7,
	`leftparen`: 0x0028,
	`leftrightarrow`: 0x2194,
	`leftrightarrows`: 0x21C6,
	`leftrightharpoons`: 0x21CB,
	`leftrightsquigarrow`: 0x21AD,
	`leftsquigarrow`: 0x219C,
	`leftthreetimes`: 0x22CB,
	`leq`: 0x2264,
	`leqq`: 0x2266,
	`leqslant`: 0x2A7D,
	`less`: 0x003C,
	`lessapprox`: 0x2A85,
	`lessdot`: 0x22D6,
	`lesseqgtr`: 0x22DA,
	`lesseqqgtr`: 0x2A8B,
	`lessgtr`: 0x2276,
	`lesssim`: 0x2272,
	`lfloor`: 0x230A,
	`ll`: 0x226A,
	`llcorner`: 0x231E,
	`lll`: 0x22D8,
	`lnapprox`: 0x2A89,
	`lneqq`: 0x2268,
	`lnsim`: 0x22E6,
	`longleftarrow`: 0x27F5,
	`longleftrightarrow`: 0x27F7,
	`longmapsto`: 0x27FC,
	`longrightarrow`: 0x27F6,
	`looparrowleft`: 0x21AB,
	`looparrowright`: 0x21AC,
	`lq`: 0x2018,
	`lrcorner`: 0x231F,
	`ltimes`: 0x22C9,
	`macron`: 0x00AF,
	`maltese`: 0x2720,
	`mapsdown`: 0x21A7,
	`mapsfrom`: 0x21A4,
	`mapsto`: 0x21A6,
	`mapsup`: 0x21A5,
	`measeq`: 0x225E,
	`measuredangle`: 0x2221,
	`mho`: 0x2127,
	`mid`: 0x2223,
	`minus`: 0x2212,
	`models`: 0x22A7,
	`mp`: 0x2213,
	`mu`: 0x03BC,
	`multimap`: 0x22B8,
	`nLeftarrow`: 0x21CD,
	`nLeftrightarrow`: 0x21CE,
	`nRightarrow`: 0x21CF,
	`nVDash`: 0x22AF,
	`nVdash`: 0x22AE,
	`nabla`: 0x2207,
	`napprox`: 0x2249,
	`natural`: 0x266E,
	`ncong`: 0x2247,
	`ne`: 0x2260,
	`nearrow`: 0x2197,
	`neg`: 0x00AC,
	`neq`: 0x2260,
	`nequiv`: 0x2262,
	`nexists`: 0x2204,
	`ngeq`: 0x2271,
	`ngtr`: 0x226F,
	`ni`: 0x220B,
	`nleftarrow`: 0x219A,
	`nleftrightarrow`: 0x21AE,
	`nleq`: 0x2270,
	`nless`: 0x226E,
	`nmid`: 0x2224,
	`not`: 0x0338,
	`notin`: 0x2209,
	`nparallel`: 0x2226,
	`nprec`: 0x2280,
	`nrightarrow`: 0x219B,
	`nsim`: 0x2241,
	`nsime`: 0x2244,
	`nsubset`: 0x2284,
	`nsubseteq`: 0x2288,
	`nsucc`: 0x2281,
	`nsupset`: 0x2285,
	`nsupseteq`: 0x2289,
	`ntriangleleft`: 0x22EA,
	`ntrianglelefteq`: 0x22EC,
	`ntriangleright`: 0x22EB,
	`ntrianglerighteq`: 0x22ED,
	`nu`: 0x03BD,
	`nvDash`: 0x22AD,
	`nvdash`: 0x22AC,
	`nwarrow`: 0x2196,
	`o`: 0x00F8,
	`obar`: 0x233D,
	`ocirc`: 0x030A,
	`odot`: 0x2299,
	`oe`: 0x0153,
	`oiiint`: 0x2230,
	`oiint`: 0x222F,
	`oint`: 0x222E,
	`omega`: 0x03C9,
	`ominus`: 0x2296,
	`oplus`: 0x2295,
	`origof`: 0x22B6,
	`oslash`: 0x2298,
	`otimes`: 0x2297,
	`overarc`: 0x0311,
	`overleftarrow`: 0x20D6,
	`overleftrightarrow`: 0x20E1,
	`parallel`: 0x2225,
	`partial`: 0x2202,
	`perp`: 0x27C2,
	`perthousand`: 0x2030,
	`phi`: 0x03D5,
	`pi`: 0x03C0,
	`pitchfork`: 0x22D4,
	`plus`: 0x002B,
	`pm`: 0x00B1,
	`prec`: 0x227A,
	`precapprox`: 0x2AB7,
	`preccurlyeq`: 0x227C,
	`preceq`: 0x227C,
	`precnapprox`: 0x2AB9,
	`precnsim`: 0x22E8,
	`precsim`: 0x227E,
	`prime`: 0x2032,
	`prod`: 0x220F,
	`propto`: 0x221D,
	`prurel`: 0x22B0,
	`psi`: 0x03C8,
	`quad`: 0x2003,
	`questeq`: 0x225F,
	`rangle`: 0x27E9,
	`rasp`: 0x02BC,
	`rbrace`: 0x007D,
	`rbrack`: 0x005D,
	`rceil`: 0x2309,
	`rfloor`: 0x230B,
	`rho`: 0x03C1,
	`rightangle`: 0x27E9,
	`rightarrow`: 0x2192,
	`rightarrowbar`: 0x21E5,
	`rightarrowtail`: 0x21A3,
	`rightbrace`: 0x007D,
	`rightharpoonaccent`: 0x20D1,
	`rightharpoondown`: 0x21C1,
	`rightharpoonup`: 0x21C0,
	`rightleftarrows`: 0x21C4,
	`rightleftharpoons`: 0x21CC,
	`rightparen`: 0x0029,
	`rightrightarrows`: 0x21C9,
	`rightsquigarrow`: 0x219D,
	`rightthreetimes`: 0x22CC,
	`rightzigzagarrow`: 0x21DD,
	`ring`: 0x02DA,
	`risingdotseq`: 0x2253,
	`rq`: 0x2019,
	`rtimes`: 0x22CA,
	`scrB`: 0x212C,
	`scrE`: 0x2130,
	`scrF`: 0x2131,
	`scrH`: 0x210B,
	`scrI`: 0x2110,
	`scrL`: 0x2112,
	`scrM`: 0x2133,
	`scrR`: 0x211B,
	`scre`: 0x212F,
	`scrg`: 0x210A,
	`scro`: 0x2134,
	`scurel`: 0x22B1,
	`searrow`: 0x2198,
	`sharp`: 0x266F,
	`sigma`: 0x03C3,
	`sim`: 0x223C,
	`simeq`: 0x2243,
	`slash`: 0x2215,
	`smallsetminus`: 0x2216,
	`smile`: 0x2323,
	`solbar`: 0x233F,
	`spadesuit`: 0x2660,
	`spadesuitopen`: 0x2664,
	`sphericalangle`: 0x2222,
	`sqcap`: 0x2293,
	`sqcup`: 0x2294,
	`sqsubset`: 0x228F,
	`sqsubseteq`: 0x2291,
	`sqsupset`: 0x2290,
	`sqsupseteq`: 0x2292,
	`ss`: 0x00DF,
	`star`: 0x22C6,
	`stareq`: 0x225B,
	`sterling`: 0x00A3,
	`subset`: 0x2282,
	`subseteq`: 0x2286,
	`subseteqq`: 0x2AC5,
	`subsetneq`: 0x228A,
	`subsetneqq`: 0x2ACB,
	`succ`: 0x227B,
	`succapprox`: 0x2AB8,
	`succcurlyeq`: 0x227D,
	`succeq`: 0x227D,
	`succnapprox`: 0x2ABA,
	`succnsim`: 0x22E9,
	`succsim`: 0x227F,
	`sum`: 0x2211,
	`supset`: 0x2283,
	`supseteq`: 0x2287,
	`supseteqq`: 0x2AC6,
	`supsetneq`: 0x228B,
	`supsetneqq`: 0x2ACC,
	`swarrow`: 0x2199,
	`t`: 0x0361,
	`tau`: 0x03C4,
	`textasciiacute`: 0x00B4,
	`textasciicircum`: 0x005E,
	`textasciigrave`: 0x0060,
	`textasciitilde`: 0x007E,
	`textexclamdown`: 0x00A1,
	`textquestiondown`: 0x00BF,
	`textquotedblleft`: 0x201C,
	`textquotedblright`: 0x201D,
	`therefore`: 0x2234,
	`theta`: 0x03B8,
	`thickspace`: 0x2005,
	`thorn`: 0x00FE,
	`tilde`: 0x0303,
	`times`: 0x00D7,
	`to`: 0x2192,
	`top`: 0x22A4,
	`triangledown`: 0x25BF,
	`triangleeq`: 0x225C,
	`triangleleft`: 0x25C1,
	`trianglelefteq`: 0x22B4,
	`triangleq`: 0x225C,
	`triangleright`: 0x25B7,
	`trianglerighteq`: 0x22B5,
	`turnednot`: 0x2319,
	`twoheaddownarrow`: 0x21A1,
	`twoheadleftarrow`: 0x219E,
	`twoheadrightarrow`: 0x21A0,
	`twoheaduparrow`: 0x219F,
	`ulcorner`: 0x231C,
	`underbar`: 0x0331,
	`uparrow`: 0x2191,
	`updownarrow`: 0x2195,
	`updownarrowbar`: 0x21A8,
	`updownarrows`: 0x21C5,
	`upharpoonleft`: 0x21BF,
	`upharpoonright`: 0x21BE,
	`uplus`: 0x228E,
	`upsilon`: 0x03C5,
	`upuparrows`: 0x21C8,
	`urcorner`: 0x231D,
	`vDash`: 0x22A8,
	`varepsilon`: 0x03B5,
	`varkappa`: 0x03F0,
	`varnothing`: 0x2205,
	`varphi`: 0x03C6,
	`varpi`: 0x03D6,
	`varpropto`: 0x221D,
	`varrho`: 0x03F1,
	`varsigma`: 0x03C2,
	`vartheta`: 0x03D1,
	`vartriangle`: 0x25B5,
	`vartriangleleft`: 0x22B2,
	`vartriangleright`: 0x22B3,
	`vdash`: 0x22A2,
	`vdots`: 0x22EE,
	`vec`: 0x20D7,
	`vee`: 0x2228,
	`veebar`: 0x22BB,
	`veeeq`: 0x225A,
	`vert`: 0x007C,
	`wedge`: 0x2227,
	`wedgeq`: 0x2259,
	`widebar`: 0x0305,
	`widehat`: 0x0302,
	`widetilde`: 0x0303,
	`wp`: 0x2118,
	`wr`: 0x2240,
	`xi`: 0x03BE,
	`yen`: 0x00A5,
	`zeta`: 0x03B6,
	`{`: 0x007B,
	`|`: 0x007C,
	`}`: 0x007D,
}

// symClass is the frozen classification of symbols.
var symClass = map[string][]string{
	"AmbiDelim": {".", "/", "\\Downarrow", "\\Uparrow", "\\Updownarrow", "\\Vert", "\\\\|", "\\backslash", "\\downarrow", "\\uparrow", "\\updownarrow", "\\vert", "\\|", "|"},
	"ArrowSymbols": {"\\Downarrow", "\\Leftarrow", "\\Leftrightarrow", "\\Longleftarrow", "\\Longleftrightarrow", "\\Longrightarrow", "\\Rightarrow", "\\Uparrow", "\\Updownarrow", "\\downarrow", "\\hookleftarrow", "\\hookrightarrow", "\\leadsto", "\\leftarrow", "\\leftharpoondown", "\\leftharpoonup", "\\leftrightarrow", "\\longleftarrow", "\\longleftrightarrow", "\\longmapsto", "\\longrightarrow", "\\mapsto", "\\nearrow", "\\nwarrow", "\\rightarrow", "\\rightharpoondown", "\\rightharpoonup", "\\rightleftharpoons", "\\searrow", "\\swarrow", "\\uparrow", "\\updownarrow"},
	"BinaryOperators": {"*", "+", "-", "\\amalg", "\\ast", "\\bigcirc", "\\bigtriangledown", "\\bigtriangleup", "\\bullet", "\\cap", "\\cdot", "\\circ", "\\cup", "\\dagger", "\\ddagger", "\\diamond", "\\div", "\\lhd", "\\mp", "\\odot", "\\ominus", "\\oplus", "\\oslash", "\\otimes", "\\pm", "\\rhd", "\\setminus", "\\sqcap", "\\sqcup", "\\star", "\\times", "\\triangleleft", "\\triangleright", "\\unlhd", "\\unrhd", "\\uplus", "\\vee", "\\wedge", "\\wr"},
	"DropSubSymbols": {"\\int", "\\oint"},
	"FontNames": {"bb", "bf", "cal", "circled", "default", "frak", "it", "regular", "rm", "scr", "sf", "tt"},
	"FunctionNames": {"Pr", "arccos", "arcsin", "arctan", "arg", "cos", "cosh", "cot", "coth", "csc", "deg", "det", "dim", "exp", "gcd", "hom", "inf", "ker", "lg", "lim", "liminf", "limsup", "ln", "log", "max", "min", "sec", "sin", "sinh", "sup", "tan", "tanh"},
	"LeftDelim": {"(", "<", "[", "\\langle", "\\lceil", "\\lfloor", "\\{"},
	"OverUnderFunctions": {"lim", "liminf", "limsup", "max", "min", "sup"},
	"OverUnderSymbols": {"\\bigcap", "\\bigcup", "\\bigodot", "\\bigoplus", "\\bigotimes", "\\bigsqcup", "\\biguplus", "\\bigvee", "\\bigwedge", "\\coprod", "\\prod", "\\sum"},
	"PunctuationSymbols": {"!", ",", ".", ";", "\\cdotp", "\\ldotp"},
	"RelationSymbols": {":", "<", "=", ">", "\\Join", "\\approx", "\\asymp", "\\bowtie", "\\cong", "\\dashv", "\\doteq", "\\doteqdot", "\\dotplus", "\\dots", "\\equiv", "\\frown", "\\geq", "\\gg", "\\in", "\\leq", "\\ll", "\\mid", "\\models", "\\neq", "\\ni", "\\parallel", "\\perp", "\\prec", "\\preceq", "\\propto", "\\sim", "\\simeq", "\\smile", "\\sqsubset", "\\sqsubseteq", "\\sqsupset", "\\sqsupseteq", "\\subset", "\\subseteq", "\\succ", "\\succeq", "\\supset", "\\supseteq", "\\vdash"},
	"RightDelim": {")", ">", "\\rangle", "\\rceil", "\\rfloor", "\\}", "]"},
}
