"""Per-property notes for MANIFEST.json: bounds (quick; thorough in brackets) and stubs in words.
NOT_APPLICABLE: properties this family cannot decide here."""
NOTES = dict(
    C01='Bounds (quick, further ones of thorough in brackets): d 1-6 [4 all symbolic] (five sparsity patterns at 3-6); 10, 16, 40 with most inputs fixed.',
    C02='Bounds (quick, further ones of thorough in brackets): d 1-6, patterns; 8, 10, 40 mostly fixed.',
    C03='Bounds (quick, further ones of thorough in brackets): sequences of 2 [3] out of 18 operations, d 1-2, 4; derived Gaussians d 2, 4, 8, 10.',
    C04='Bounds (quick, further ones of thorough in brackets): d 1-3, 5, 12, 40 [4]; arbitrary symmetric/asymmetric d 1-2 [3].',
    C05='Bounds (quick, further ones of thorough in brackets): d 1-5, 10, 12; series of 1-6, 12, 30, 127; 259, 701, 1031 points built from three states.',
    C06='Bounds (quick, further ones of thorough in brackets): d 1-6, 10, 40; outputs 1-3, 6, 10. Arbitrary functions as uninterpreted rows.',
    C07='Bounds (quick, further ones of thorough in brackets): n 1-6, 10, 40; k 1-5, 40. Arbitrary functions with arbitrary derivative, exercised through the real autograd.',
    C08='Bounds (quick, further ones of thorough in brackets): d 1-5; 1-12, 100, 150 arbitrary draws; 257 and 1103 [10000] draws out of a few values. Random source stubbed by standard-normal symbols.',
    C09='Bounds (quick, further ones of thorough in brackets): d, n 1-6, 10, 12.',
    C10='Bounds (quick, further ones of thorough in brackets): d 1-5, 10, 12, 40; k 1-5, 8, 10.',
    C11='Bounds (quick, further ones of thorough in brackets): d 1-5, 10 (symbolic power at d ≥ 2 partly fixed).',
    C12='Bounds (quick, further ones of thorough in brackets): d 1-6, 10, 12; k 1-3, 12.',
    C13='Bounds (quick, further ones of thorough in brackets): d 1-3, k 1-2, T 1-8, 20; recursion T 2-8, 101, d 10.',
    C14='Bounds (quick, further ones of thorough in brackets): d 1-5, 8, 10, k 1-4, T 1-5, 11, 24, up to 40 (affine 50) iterations; the default number after others.',
    C15='Bounds (quick, further ones of thorough in brackets): d 1-3, 5, 8, T 1-6, 12, 16, 24, passes 1-5, 12; the default number after others.',
    C16='Bounds (quick, further ones of thorough in brackets): d 1-4, 8, 10, 12; chains of 1-5, 9, 53, 130 nodes. Induction over updates extends single updates to schedules (outside the solver).',
    C17='Bounds (quick, further ones of thorough in brackets): d 1-6; chains of 1-6, 9, 40, 53 nodes.',
    C18='Bounds (quick, further ones of thorough in brackets): d 1-3, 5, 8, k 1-2, T 1-4, 6, 50; order to 1009 [5003] nodes.',
    C19='Bounds (quick, further ones of thorough in brackets): d 1-3, 5, k 1-2, T 1-5, 13, 16, 40, fixed point to T 20, d 4; power in [0.01, 100].',
    C20='Bounds (quick, further ones of thorough in brackets): 1-5, 9-12, 100, 109, 127, 300 [20, 1100] nodes, d 1-3, 12; k 1-2, 10, 12, 40.',
    C21='Bounds (quick, further ones of thorough in brackets): d 1-3, 5, 8; k 1-4, 8; T 1-3, 10, 12, 25, 40, (known functions) 130, 300, 1000 [5000]; noise d 3-6, 40.',
    C22='Bounds (quick, further ones of thorough in brackets): 1-3, 5, 12 [8] sensors, all parameters symbolic. Nonzero turn rate; trigonometric functions abstract with sin^2+cos^2=1.',
    C23='Bounds (quick, further ones of thorough in brackets): 3, 4, 6 [7] free of up to 40 [60] components.',
    C24='Bounds (quick, further ones of thorough in brackets): 1-6 symbolic rows; 20 to 10007 rows with one symbolic.',
    C25='Bounds (quick, further ones of thorough in brackets): 0-4, 12, 61 sweeps on 1-5, 59 nodes. A real sqlite database whose numbers stand for symbolic values.',
    C26='Bounds (quick, further ones of thorough in brackets): d 2-5, 8, 10.',
    C27='Bounds (quick, further ones of thorough in brackets): 1-4, 11, 12, 101, 127 states; 271 and 1037 [5003] built from few; ensembles to 521 samples, 307 times. Drawing calls recorded.',
    C28='Bounds (quick, further ones of thorough in brackets): 0-5, 11, 12, 60, 101-199, 1009 steps, any sign and size of seed; arrays up to 40 components, any rank ≤ 3. A real sqlite database whose numbers stand for symbolic values.',
    C29='Bounds (quick, further ones of thorough in brackets): 1-3, 10, 11 iterations, 1-4 steps. Lists of seeds, rules, powers and dampings are concrete (they appear in SQL text); random streams and stored scores symbolic.',
    C30='Bounds (quick, further ones of thorough in brackets): 1-3, 8, 30, 53 states of dimension 5; to 20 sweeps.',
    C31='Bounds (quick, further ones of thorough in brackets): d 1-5, 10, 12.',
    C32='Bounds (quick, further ones of thorough in brackets): d 1-6, 8, 10, 12.',
    C33='Bounds (quick, further ones of thorough in brackets): 2-3 [6] steps, all ten seeds and six dimensions, interruption at listed points. Smoothing results arbitrary (stub); real sqlite database.',
    C34='Bounds (quick, further ones of thorough in brackets): 1-3, 10 stored runs per configuration, all sections; outliers among 4-6 [8] scores in listed orders. Real sqlite databases with symbolic scores, printed numbers are tokens.')
NOT_APPLICABLE = {}
