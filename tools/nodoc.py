import re,sys
for f in sys.argv[1:]:
    s=open(f).read()
    s=re.sub(r'^[ \t]*"""(?:.|\n)*?"""[ \t]*\n','',s,flags=re.M)
    print('#####',f); print(re.sub(r'\n\s*\n+','\n\n',s))
