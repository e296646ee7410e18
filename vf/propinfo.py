"""Per property: how cases are made and counted, and what is assumed."""

FIT = ("Each case is a generated training set, label set and hyper-parameter set; the source model is fitted in "
       "process, converted, and both are asked about generated records. Cases whose source model cannot be fitted or "
       "does not answer are discarded and counted. ")
BIG = " The suite named large repeats this at sizes no other suite reaches (wide, tall, deep, many classes, levels or words)."
REF = "the installed scikit-learn 0.23.2, xgboost 1.7.6, fasttext 0.9.1 and numpy are the reference"

INFO = {
    "C01": {"rule": FIT + "A share of cases replaces the coefficients by generated ones (zeros, ties, magnitudes). Non-trivial: "
            "some record has a non-zero feature and all offered methods were compared." + BIG,
            "assumptions": [REF, "scores are compared up to 1e-13 times the sum of the absolute products; labels are compared exactly "
                            "where the two score rows are bitwise equal or further apart than that bound, so an exact tie is decided exactly"]},
    "C02": {"rule": FIT + "Records include split thresholds of the fitted trees and their neighbours one double or one single "
            "precision step away. Non-trivial: the model has at least one split or the records are not all zero." + BIG,
            "assumptions": [REF]},
    "C03": {"rule": FIT + "Records include split thresholds of the stages. Non-trivial: non-zero records, all methods compared." + BIG,
            "assumptions": [REF, "with LogisticRegression or GaussianNB as init the source feeds single precision records to it; "
                            "records are made single precision there and a wider tolerance is used"]},
    "C04": {"rule": FIT + "Records include split values of the booster and neighbours, and NaN. Non-trivial: the booster has a split." + BIG,
            "assumptions": [REF, "probabilities equal up to 3e-5 relative (single precision sums)"]},
    "C05": {"rule": FIT + "Counts are scaled up to 1e5 so that likelihoods underflow. Non-trivial: non-zero records, all methods compared." + BIG,
            "assumptions": [REF]},
    "C06": {"rule": FIT + "normalize and the pairwise functions are called on generated matrices of magnitudes 1e-30 to 1e30. "
            "Non-trivial: a non-zero matrix." + BIG, "assumptions": [REF]},
    "C07": {"rule": FIT + "Records mix seen and unseen categories and keys. Non-trivial: as counted per suite, several "
            "columns or a known key in the records." + BIG, "assumptions": [REF]},
    "C08": {"rule": FIT + "Training and test cells are missing at random under every marker kind. Non-trivial: some cell is missing." + BIG,
            "assumptions": [REF, "columns of object arrays hold one type, as the source requires"]},
    "C09": {"rule": FIT + "Documents are made of words, accents, separators and arbitrary Unicode. Non-trivial: a known token occurs." + BIG,
            "assumptions": [REF, "built-in analyzers only; decode errors and single mappings as the source treats them"]},
    "C10": {"rule": FIT + "The composition (steps, branches, weights, skips, nesting to depth 3) is generated. Non-trivial: every compared case." + BIG,
            "assumptions": [REF, "records whose tree-based final step changes under a 1e-9 relative perturbation of its input are not compared"]},
    "C11": {"rule": "Model files are written by the harness byte by byte (generated dictionary, matrices, arguments), or models are "
            "trained by the native library on a generated corpus. Non-trivial: some text has a non-zero sentence vector." + BIG,
            "assumptions": [REF, "single precision rounding bounds derived from the matrices; order of labels compared where probabilities are separated"]},
    "C12": {"rule": "Any kind of model is pickled with a generated protocol and sent to a bare interpreter (-s -P -S, and a second one with -OO, no UTF-8 mode and the C locale; only the "
            "package on its path) that unpickles it and answers; results are compared bit for bit and audited for plain types. "
            "Functions of the package and vectorizers that read files are called there, too. "
            "Non-trivial: a result was returned by the bare interpreter.",
            "assumptions": ["/usr/bin/python3 without site-packages stands for an interpreter with only the standard library"]},
    "C13": {"rule": "Any sparse-capable model or metric is called on a dense matrix and on sparse structures of it (with and without stored "
            "zeros, empty rows, trailing zero columns, integer data). Non-trivial: the matrix has a non-zero entry.", "assumptions": []},
    "C14": {"rule": "Any model's records are submitted alone, whole, reversed, selected, split, duplicated and in batches of up to 1030; rows of one result must be distinct objects. "
            "Non-trivial: the records do not all have the same result.", "assumptions": []},
    "C15": {"rule": "Stateful: a generated history of calls, result mutation, pickling, conversions and refits of the source, refilled input containers, and calls that fail, and calls overlapping in two threads; the "
            "first answers of a pristine copy are the reference. Functions of the package are called repeatedly with the same arguments. Non-trivial: a later call was compared with the first answer.",
            "assumptions": ["the source's behaviour is compared before and after conversion"]},
    "C16": {"rule": "Unsupported estimators and options at every position must be refused; documented options must be accepted and agree; "
            "unusual values of any hyper-parameter must be one or the other. Non-trivial: refused, or compared in full.",
            "assumptions": [REF]},
    "C17": {"rule": "A fitted model of a generated kind and one generated malformation of its input (width, raggedness, representation, "
            "category, container, string, newline). Non-trivial: the same model answers the well-formed records.",
            "assumptions": ["only the requirements listed in the statement are checked"]},
    "C18": {"rule": FIT + "Records and coefficients are scaled up to 1e300 (1e36 for single precision models). Records for which the source's "
            "own row is not a well-formed distribution are skipped. Non-trivial: two classes or more.",
            "assumptions": [REF, "tolerance grows with the magnitude of the joint likelihood as rounding does"]},
    "C19": {"rule": "Generated matrices of every shape up to 7x7 (dense, sparse with stored zeros, integer, magnitudes 1e-30 to 1e30) and "
            "scalars including infinities, NaN and subnormals. Non-trivial: non-zero operands.",
            "assumptions": ["numpy is the reference", "column indices are non-negative"]},
    "C20": {"rule": "A fitted model of a generated kind is converted while the source library reports a generated version string, or none. "
            "Non-trivial: every decided case.", "assumptions": ["release versions (digits and dots, optional .postN); pre-releases are not generated"]},
    "C21": {"rule": "A source model is fitted plainly, again after other data, by partial_fit or by warm start, from training data in a generated "
            "representation, then pickled, copied, saved and loaded or converted first; its conversion is compared as in C01-C10. Non-trivial: "
            "some step beyond a plain fit, and the kind's own rule.", "assumptions": [REF]},
    "C22": {"rule": "Records with integral values are submitted as ints, floats, bools, negative zeros and mixtures (dense and sparse) to any "
            "numerical model or pairwise function. Non-trivial: at least two forms differ in type and the record is not all zero.",
            "assumptions": ["stored zeros are not compared for TfidfTransformer, whose source treats them as entries"]},
    "C23": {"rule": "Generated texts (accents, combining marks, tags, separators, arbitrary Unicode, bytes) through every helper; methods of vectorizers "
            "with generated options. Non-trivial: the helper's result differs from its argument or has a token.", "assumptions": [REF]},
    "C24": {"rule": "A fitted model (any kind, nested too) is copied and its state reduced to the layout of a generated release (0.20 to 0.22; for "
            "xgboost 0.82 to 1.4): attributes that later releases added are removed, those of the release added, its version reported; the "
            "conversion is compared with the intact source as in C01-C10. Non-trivial: the kind's own rule.",
            "assumptions": [REF, "the layouts are emulated from the release histories; the earlier releases themselves are not installed"]},
    "C25": {"rule": "The report is captured and parsed: for real models, sizes against pickle and ratios against the printed figures; for recording "
            "stand-ins of generated size and slowness, which record each was given and that each duration covers its model's work and no other's. "
            "Non-trivial: a real model, or more than one record.", "assumptions": ["the format of the documented example output"]},
}
