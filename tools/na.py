NA = {
 "C27": "text formatting through iostreams: no contract within reach of the verifier expresses the printed characters (stream state and locale live in the standard library); the numeric content printed is the parameter fields covered by C05/C06/C23",
}
