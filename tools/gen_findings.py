import json,subprocess
M={"09dd1e1":("C17","check_array returned instead of raised the error for an empty batch"),
"a137979":("C20","version comparison failed without distutils, and so no model converted"),
"3645066":("C12","numpy scalars in hyper-parameters and labels stayed in converted models"),
"bf15920":("C09","binary CountVectorizer and HashingVectorizer returned a list of dicts"),
"4e3ada7":("C09","hashing vectorizer lost repeated or colliding tokens"),
"294461a":("C09","inconsistent stop word lists raised NameError"),
"2a643ed":("C09","TfidfTransformer without idf, with sublinear tf, on dense input; modified its input"),
"39c6cf4":("C07","sparse DictVectorizer overwrote entries sharing a column"),
"c30dab7":("C07","OneHotEncoder column offsets from the third feature on"),
"67ba21f":("C06","max norm with negative values"),
"b6f8d23":("C08","MissingIndicator compared counts with feature indices"),
"e4a6a05":("C08","imputers on string columns, None or string markers"),
"79f5c8a":("C10","FeatureUnion weights on sparse branches"),
"dc14fa6":("C10","pipelines and unions with skipped steps"),
"aa806d8":("C17","sparse_list without rows or columns raised IndexError"),
"b7b912d":("C02","trees compared double precision features with thresholds"),
"0f68123":("C16","multi-output trees predicted only the first output"),
"6b882b3":("C04","xgboost feature index read from the last digit of the name"),
"1feae90":("C04","pruned xgboost trees traversed through wrong nodes"),
"306edd3":("C04","xgboost feature value equal to the split value went to the wrong child"),
"0762015":("C04","missing values not sent down the default direction"),
"c46e7ac":("C04","two-class softprob models could not predict"),
"e0093d6":("C04","early stopping and parallel trees used wrong trees; multi-output accepted"),
"5e741e9":("C04","base score ignored"),
"77f9646":("C02","trees fitted on a sample without any weight could not predict probabilities"),
"6baaf63":("C04","split values of integer xgboost features were rounded, boolean features not converted"),
"56bb565":("C16","categorical xgboost splits converted to wrong trees"),
"627bf31":("C18","softmax overflowed to NaN"),
"794ab56":("C05","naive Bayes probabilities NaN or infinite when the likelihood underflows"),
"82c1776":("C03","multi-class gradient boosting probabilities overflowed"),
"b58d3e6":("C03","exponential loss probabilities"),
"6d6fad3":("C03","exponential loss label on an exact tie"),
"ea7301c":("C03","zero initialisation could not be converted"),
"a8e627c":("C05","DummyClassifier predicted the class index and returned its own state"),
"4dadf29":("C19","slicing several columns of a sparse_list"),
"204ba3b":("C02","bagging failed on sparse input"),
"6bef9f0":("C02","bagging members that saw fewer classes"),
"887cd17":("C16","fastText models with word n-grams, subwords or plain labels converted wrongly"),
"ec0c79d":("C11","fastText tokenisation and empty vectors"),
"70f0ff8":("C11","fastText predict on lists, k=-1"),
"9d394fc":("C15","fastText word vectors aliased the model's matrix"),
"32329bf":("C11","fastText models read from a file could not be converted"),
"07246b6":("C17","records of the wrong width after a first record of the right width were scored"),
"c953183":("C17","an emptied sparse_list was scored or raised IndexError"),
"472223f":("C19","ravel returned only the first column of a matrix"),
"9cb9663":("C05","GaussianNB raised OverflowError on records far from the training data"),
"4459a29":("C06","normalize_pure returned norm 1 for all-zero sparse rows"),
"c7ba787":("C16","CountVectorizer ignored its dtype (boolean counts)"),
"1c248f9":("C03","initial probabilities of 0 or 1 clipped at a rounded epsilon"),
}
log=subprocess.run(["git","-C","/repo","log","--format=%h","2a414fd..HEAD"],capture_output=True,text=True).stdout.split()
assert set(log)==set(M),(set(log)^set(M))
json.dump({"known":[],"fixed":["fixed: property=%s %s %s"%(M[h][0],h,M[h][1]) for h in reversed(log)]},open("/verif/known_findings.json","w"),indent=1)
