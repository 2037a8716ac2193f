"""per-property data of the checks: level, what is proved and what is bounded, assumptions"""
REAL='machine doubles are treated as real numbers (rounding is covered only by the bounded harness); int and size_t arithmetic is exact and its overflow is an obligation'
SIZES='containers hold at most 2^26 elements and memory allocation succeeds'
ALIAS='reference parameters do not alias each other or *this'
LIB='std::vector, std::algorithm, std::optional, <cmath> and Eigen fixed-size operations behave as modelled in vc/builtins_.py'
BASE=[REAL,SIZES,ALIAS,LIB]
CL='domain: clamped knot vectors (exactly degree+1 zeros and ones, interior multiplicity at most the degree) and positive weights'
DEPS={'C06':['C05','C02'],'C07':['C02','C05'],'C08':['C02','C06','C26'],'C09':['C02','C05','C18'],'C10':['C02','C06','C18','C26'],'C11':['C04','C03'],'C12':['C04','C03','C18'],'C13':['C02','C03','C11','C18'],'C14':['C18'],
 'C20':['C11'],'C21':['C07','C18','C19','C20'],'C22':['C07','C08','C09','C10'],'C23':['C01','C18'],'C24':['C18'],'C25':['C04','C18']}
def P(level,note,*extra,**k): return dict(level=level,note=note,assumptions=BASE+list(extra),**k)
INFO={}
INFO['C01']=P('proof','all constructors and the uniform builder under contract; NaN is modelled explicitly here')
INFO['C02']=P('proof','both span queries under contract',CL)
INFO['C03']=P('proof','all structure queries under contract')
INFO['C04']=P('proof','insertion and reversal under contract')
INFO['C05']=P('proof','the Cox-de Boor evaluation on a given span under contract (values, non-negativity, sum to one)',CL)
INFO['C06']=P('proof','basis derivatives of every order under contract: values, zero above the degree, row sums',CL)
INFO['C07']=P('proof','Curve::Evaluate, IsRational and the homogeneous conversions under contract: rational combination, positive denominator, hull, end points',CL)
INFO['C08']=P('proof','HomogeneousDerivative, EvaluateAll and EvaluateDerivative under contract; orders up to 29 (above, the int binomial overflows)',CL)
INFO['C09']=P('proof','Surface::Evaluate and IsRational under contract: tensor-product combination, hull, corners',CL)
INFO['C10']=P('proof','surface derivatives under contract; orders up to 17 per direction (above, the product of two int binomials can overflow)',CL)
INFO['C11']=P('proof','the three ways of inserting curve knots under contract: knots added in place and with the right number of copies, convex combination of the homogeneous control points, valid result, same point at every parameter (lemma: basis functions under knot insertion)','that two ways of inserting the same knots give the same control points is checked only by the bounded search',CL)
INFO['C12']=P('proof','surface knot insertion in u and v (one knot, repeated knot, list) under contract: knots added in place and with the right number of copies, knots and degree across kept, convex combination of the homogeneous control points of every line, valid result, same point at every parameter pair','that two ways of inserting the same knots give the same control points is checked only by the bounded search',CL)
INFO['C13']=P('proof','KnotRemoval, CalcTOL, Curve::RemoveKnot and Surface::RemoveKnotU/V under contract: count, exactly t copies and t control points (lines) fewer, all other knots kept in their order, valid result with positive weights, t = 0 returns the original, and at every parameter the curve (of every line of control points) deviates along every direction by at most 2*t*tolerance (lemmas: one removal step is an insertion up to the tolerance, knot insertion keeps the sums, rational deviation)','that removing what was just inserted succeeds and restores the control points is checked only by the bounded search','2*t*tolerance at most 1, times at least 1, degree at least 1, the knot stored or at least 1e-6 from every knot, multiplicity at most the degree (as the property says)',CL)
INFO['C18']=P('proof','every Grid operation under contract, for both element types used')
INFO['C19']=P('proof','every BoundingBox operation under contract')
INFO['C20']=P('proof','Curve::ExtractBezier under contract: one piece per non-empty span, each a valid clamped single-span curve of the same degree, same weight and point sums at the corresponding parameter for every local parameter (lemmas: refinement until every interior knot has full multiplicity, basis functions of a full-multiplicity span are those of the single-span vector), neighbouring pieces share their joint','degree at least 1, interior multiplicities up to the degree (as the property says)',CL)
INFO['C21']=P('proof','Curve::GetBoundingBox under contract: every point of the curve lies within max(epsilon,1e-6) of the box, and the box lies inside every box that holds all points of the curve (lemmas: de Casteljau subdivision, convex hull of a piece, end points of a piece are points of the curve, the pieces cover the domain); every index of the de Casteljau table in range','partial correctness: that the subdivision loop terminates is covered only by the bounded search','degree at least 1, interior multiplicity up to the degree, knots*(degree+1) at most 2^26',CL)
INFO['C22']=P('proof','all five parameter searches under contract: every evaluation inside the domain, results in [0,1], fixed coordinate returned in its place, a start that hits the target exactly is returned, every loop has a decreasing measure; that targets on straight segments and flat rectangles are reproduced is checked only by the bounded search','NaN and overflow do not occur in the real-number model (the guard against a non-finite step is covered by the bounded search)',CL,seconds=20)
INFO['C23']=P('proof','GeomSegment and GeomRect (Make and the builders) under contract: requested degrees and counts, evenly spaced unit-weight control points, valid result, corners; that a corner of the surface is the corner control point is the corner clause of C07/C09')
INFO['C24']=P('proof','Curve::Transform and Surface::Transform under contract: every control point moved by the matrix, weights, degrees, knots and dimensions kept, weighted point sums at every parameter moved by the matrix (linearity lemmas)',CL)
INFO['C25']=P('proof','AlignParameterDomain under contract for every axis pair: degrees, knots, dimensions and every control point are those of the original under one exchange and/or mirroring of the directions (witnesses: the three flags of the code), the result is valid, the original unchanged, and edges that follow the requested axes run along them in +u/+v','that the exchanged and mirrored surface evaluates to the same point at the exchanged and mirrored parameter follows from the relation and is checked only by the bounded search',CL)
INFO['C26']=P('proof','Binomial, Factorial and Approx under contract')
STREAM='std::string, istream, ostream and file streams behave as modelled in vc/streams.py (a string is a window of bytes; any write may fail and then sets the fail flag; exceptions of the streams are off; streams stay below 2^61 bytes; what the destructor of a file stream flushes is written); double and int values are only moved between objects and streams'
INFO['C15']=P('proof','Curve and Surface SaveToFile and LoadFromFile (stream and file name) and the helpers they use under contract: bytes written, bytes consumed, every field equal to what lies at its offset; lemmas put the two together (what was saved loads without an exception and gives the same degrees, knots, dimensions and points)',STREAM)
INFO['C16']=P('proof','text branches of SaveToFile and LoadFromFile of both classes (stream and file name) and ReadVec4FromText, TrimString under contract: SaveToFile writes exactly the layout curve_text / surface_text (header, keys, separators, one number text per value, each denoting its value), LoadFromFile of any stream that consists of such a layout, with any numbers of knots and points, does not throw and gives the values the number texts denote; lemmas put the two together',STREAM,'a double written with 17 significant digits (scientific with precision 16 or more, or precision 17 or more) denotes the same double when read; a written number contains no white space, comma, colon or asterisk; a number text that is a whole word is read by operator>> as the number it denotes','values are finite and in the normal range; at most 2^26 control points of a surface')
INFO['C17']=P('proof','LoadFromFile of both classes and the helpers under contract for every byte stream: memory safety, only std::runtime_error escapes, header words, known sections, one number for a degree, every knot starts with a number, four numbers in every control point, complete binary payload, grid size equal to the dimensions, every loop has a decreasing measure',STREAM,'which words operator>> accepts as a number is left open, except that a word that does not start with a number is refused; a control point whose number is followed by other characters in the same word is only covered by the bounded search')
B='no function of this property is under a discharged contract yet: bounded search only, never counted as proved'
for i in range(1,27):
    k=f'C{i:02d}'
    if k not in INFO: INFO[k]=P('exploration',B,CL,seconds=30)
