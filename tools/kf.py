import json,subprocess
M={'7a06283':('C24','the last forcing interval was not run when the number of intervals was computed just below an integer'),
'306189b':('C01','surface water was lost when the ponded depth equalled its maximum exactly'),
'6f5dc99':('C14','GetGridShape left the shape of the layer and front grids undefined or wrote a wrong entry'),
'1e9467b':('C20','the wilting-point water content was computed with an uninitialised van Genuchten m'),
'a9803d4':('C20','a long soil name overflowed the fixed-size name buffers'),
'c4dd0ee':('C16','invalid soil types indexed past the end of the soil properties array'),
'4ad2b6b':('C19','layers were used before layer_thickness was known to be set'),
'1bf6769':('C11','GIUH ordinates were divided by a factor of zero for forcing resolutions above one hour'),
'1654fff':('C21','dz/dt paired a layer\'s thickness with another layer\'s conductivity'),
'0856c4a':('C17','infiltration used the frozen factor of another layer'),
'1f5a57e':('C17','the conductivity of a new front was multiplied by the frozen factor twice'),
'56c3d5c':('C17','the soil temperature profile was read past its end'),
'35500d9':('C16','invalid soil types ignored the forcing resolution'),
'ea2be2f':('C16','model time did not advance for invalid soil types'),
'd4a0893':('C15','UpdateUntil advanced by a single step whatever the requested time'),
'c30ad15':('C04','a wetting front was used after it had been deleted'),
'6a433b3':('C22','soil_z was used before it was checked and leaked without coupling'),
'5abc860':('C18','calibrated van Genuchten parameters left the Brooks-Corey estimates stale'),
'905e780':('C13','soil_depth_layers was allocated but never set'),
'4a428b5':('C07','a saturated front crossing into the next layer kept the conductivity of the upper layer'),
'efcec5a':('C03','the cumulative groundwater discharge was never initialised'),
'09e775f':('C14','the spacing and origin of the uniform grid were never set'),
'f40c94a':('C08','inserting a front into the middle of the list never terminated')}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','419af8e..'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if h not in M:
        M[h]={'adaptive':('C15','adaptive substeps did not cover the whole forcing interval when the substep does not divide it'),
              "parameter's":('C19','text after a closing bracket changed the unit of a parameter'),
              'saturated':('C01','the infiltration limit of a saturated column compared the deepest front with the saturated content of the top layer'),'without updates':('C03','the summary of a run without updates lost the initial soil water'),'outputs':('C13','outputs read before the first update were undefined')}[[k for k in ('adaptive',"parameter's",'saturated','without updates','outputs') if k in s][0]]
    p,w=M[h]
    out.append(dict(id='F-'+h,property=p,status='fixed',commit=h,what=f'fixed: property={p} {h} {w}'))
json.dump(dict(findings=out),open('/verif/known_findings.json','w'),indent=1)
