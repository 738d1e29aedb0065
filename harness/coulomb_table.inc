{0,0,0.015625,1.56243642248833721748e-2L,9.99877932171006654736e-1L},
{1,0,0.015625,8.13782215291644505953e-5L,6.40078120231693092753e+1L},
{3,0,0.015625,5.67655584191823345567e-10L,3.93225600195320447043e+6L},
{8,0,0.015625,1.61090310087422865808e-24L,5.7056145789196181376e+20L},
{0,0,0.1,9.98334166468281578302e-2L,9.95004165278025765541e-1L},
{1,0,0.1,3.33000119025575734191e-3L,1.00498750694270852609e+1L},
{3,0,0.1,9.51851972086556915832e-7L,1.50150125208072978469e+4L},
{8,0,0.1,2.9012001025301913908e-17L,2.02770080495718933436e+14L},
{0,0,0.31,3.05058636443443499451e-1L,9.5233356988571339852e-1L},
{1,0,0.31,3.17265476737817680479e-2L,3.37710241026832545217L},
{3,0,0.31,8.74858266250997923931e-5L,5.08385843694851619708e+2L},
{8,0,0.31,7.65330071253759430043e-13L,2.384279075494152275e+10L},
{0,0,1,8.41470984807896506653e-1L,5.40302305868139717401e-1L},
{1,0,1,3.01168678939756789252e-1L,1.38177329067603622405L},
{3,0,1,9.00658111711251625941e-3L,1.66433145401238085497e+1L},
{8,0,1,2.82649880221472943147e-8L,2.09591183991049585368e+6L},
{0,0,2.3,7.4570521217672029574e-1L,-6.66276021279824060854e-1L},
{1,0,2.3,9.90495678747963344912e-1L,4.56019985533318507778e-1L},
{3,0,2.3,1.96994915049232950989e-1L,2.28546848851540662736L},
{8,0,2.3,4.54335572602975236372e-5L,3.09530690552513150429e+3L},
{0,0,5,-9.58924274663138468893e-1L,2.83662185463226264467e-1L},
{1,0,5,-4.75447040395853958245e-1L,-9.02191837570493216e-1L},
{3,0,5,1.14910309082148005219L,7.72145495649710219333e-2L},
{8,0,5,2.8707173372738956298e-2L,1.28188817253383279473e+1L},
{0,0,10,-5.44021110889369813405e-1L,-8.39071529076452452259e-1L},
{1,0,10,7.84669417987515470918e-1L,-6.27928263797015058631e-1L},
{3,0,10,-3.94958449844703243578e-1L,9.53274788765689025965e-1L},
{8,0,10,1.25578023649567831206L,4.11173277549345062438e-1L},
{0,0,20,9.12945250727627654376e-1L,4.08082061813391986062e-1L},
{1,0,20,-3.62434799277010603343e-1L,9.33349353818297253679e-1L},
{3,0,20,1.20607181622215792124e-1L,-1.00036926850345910318L},
{8,0,20,1.73066376743676961243e-1L,-1.03620723927600695669L},
{0,0,40,7.45113160479348786988e-1L,-6.66938061652261844384e-1L},
{1,0,40,6.85565890664245564059e-1L,7.28439708938042240878e-1L},
{3,0,40,-7.72277855499186860269e-1L,-6.38243328960215364322e-1L},
{8,0,40,-6.30985643136272350022e-2L,-1.00959550738530872631L},
{0,0,80,-9.93888653923375189731e-1L,-1.10387243839047558118e-1L},
{1,0,80,9.79636356650053682462e-2L,-9.95268494471363284207e-1L},
{3,0,80,-3.56159925237045625562e-2L,9.99835036677386498892e-1L},
{8,0,80,-9.45499565585088234212e-1L,3.3421866176366386469e-1L},
{0,0,200,-8.73297297213994581733e-1L,4.87187675007005910355e-1L},
{1,0,200,-4.91554161493075883263e-1L,-8.70861358838959552181e-1L},
{3,0,200,5.13202261112865844351e-1L,8.5835509395421979459e-1L},
{8,0,200,-7.72299053816479705263e-1L,6.35968045070287488024e-1L},
{0,1e-06,0.015625,1.56243399263294846053e-2L,9.99879381266563032117e-1L},
{1,1e-06,0.015625,8.13780943363969543463e-5L,6.40079115657755503897e+1L},
{3,1e-06,0.015625,5.67654694738541728946e-10L,3.93226215825119882175e+6L},
{8,1e-06,0.015625,1.61090057327215128273e-24L,5.70562353014161047066e+20L},
{0,1e-06,0.1,9.98332698177828423789e-2L,9.95005322571893398701e-1L},
{1,1e-06,0.1,3.32999612604197100002e-3L,1.00498898383306277305e+1L},
{3,1e-06,0.1,9.51850500720039889457e-7L,1.50150356056861014848e+4L},
{8,1e-06,0.1,2.90119557757520757517e-17L,2.02770396471768188306e+14L},
{0,1e-06,0.31,3.05058252336082451613e-1L,9.52334519487242847013e-1L},
{1,1e-06,0.31,3.17265027660188759901e-2L,3.3771066210370896467L},
{3,1e-06,0.31,8.74856959877553117495e-5L,5.08386589561130305941e+2L},
{8,1e-06,0.31,7.65328895442768320119e-13L,2.38428272829487590215e+10L},
{0,1e-06,1,8.41470556093595134872e-1L,5.40303712064104148759e-1L},
{1,1e-06,1,3.01168359946418366933e-1L,1.38177429312866029121L},
{3,1e-06,1,9.00656923821338099073e-3L,1.66433349109675872012e+1L},
{8,1e-06,1,2.82649467697238068542e-8L,2.09591486933406774617e+6L},
{0,1e-06,2.3,7.45706790805853337656e-1L,-6.66274558711068753581e-1L},
{1,1e-06,2.3,9.90495436539164925136e-1L,4.56021179244665715048e-1L},
{3,1e-06,2.3,1.96994723742850854223e-1L,2.28547003805189524458L},
{8,1e-06,2.3,4.54334976145077494e-5L,3.09531086188992342702e+3L},
{0,1e-06,5,-9.58925188399095003235e-1L,2.83659442705308186789e-1L},
{1,1e-06,5,-4.75445401802049011289e-1L,-9.0219282249938021372e-1L},
{3,1e-06,5,1.14910319733323121019L,7.72156455248720144724e-2L},
{8,1e-06,5,2.87071450129118665055e-2L,1.28188929182146003171e+1L},
{0,1e-06,10,-5.44018137928112400625e-1L,-8.39073515920535591073e-1L},
{1,1e-06,10,7.84671071928477276648e-1L,-6.27926278591242865218e-1L},
{3,1e-06,10,-3.9496010415463729486e-1L,9.53274166063885297012e-1L},
{8,1e-06,10,1.25578013736451486559L,4.1117413007454806348e-1L},
{0,1e-06,20,9.12943532343599000074e-1L,4.08085967278900671744e-1L},
{1,1e-06,20,-3.62437856202073587745e-1L,9.33348193710723594787e-1L},
{3,1e-06,20,1.20609611502892691236e-1L,-1.00036900166277621218L},
{8,1e-06,20,1.730679375211207157e-1L,-1.03620701091478557885L},
{0,1e-06,40,7.45116477392786363778e-1L,-6.66934374665130230541e-1L},
{1,1e-06,40,6.85563015280556919769e-1L,7.28442432261095194851e-1L},
{3,1e-06,40,-7.72275871225265569677e-1L,-6.38245749735367164108e-1L},
{8,1e-06,40,-6.30963136105975428086e-2L,-1.00959566130924301639L},
{0,1e-06,80,-9.93888036162806943037e-1L,-1.10392862411765948719e-1L},
{1,1e-06,80,9.79682666142133609541e-2L,-9.95268044921310827674e-1L},
{3,1e-06,80,-3.56198107429619429639e-2L,9.99834906926135927889e-1L},
{8,1e-06,80,-9.45500551402300478238e-1L,3.34215891907393889869e-1L},
{0,1e-06,200,-8.73300499561462111852e-1L,4.87181939798303951834e-1L},
{1,1e-06,200,-4.91549313171401637751e-1L,-8.70864098307557884236e-1L},
{3,1e-06,200,5.13198197840376264103e-1L,8.5835752624654826864e-1L},
{8,1e-06,200,-7.72301504463009454811e-1L,6.35965073014227556015e-1L},
{0,0.01,0.015625,1.53819930986673139379e-2L,1.01455684360813333838L},
{1,0.01,0.015625,8.01135980812709825919e-5L,6.5013114824211501188e+1L},
{3,0.01,0.015625,5.58822436076818183429e-10L,3.99436004894993565166e+6L},
{8,0.01,0.015625,1.5858150086211357456e-24L,5.79586661838803704683e+20L},
{0,0.01,0.1,9.83677636629515422937e-2L,1.00671213216447876642L},
{1,0.01,0.1,3.27963631869991989835e-3L,1.01989881243855782184e+1L},
{3,0.01,0.1,9.37238130957611608345e-7L,1.52478613852236346002e+4L},
{8,0.01,0.1,2.85628478378317656769e-17L,2.0595579619382712316e+14L},
{0,0.01,0.31,3.01216379709149903335e-1L,9.61894666445617146619e-1L},
{1,0.01,0.31,3.12796169124675797344e-2L,3.419593919231223205L},
{3,0.01,0.31,8.6187931624049339927e-5L,5.15906860395131828724e+2L},
{8,0.01,0.31,7.53657384114424277954e-13L,2.42110253590207756219e+10L},
{0,0.01,1,8.37109297902532797804e-1L,5.54348989288565584429e-1L},
{1,0.01,1,2.97985164954251003551e-1L,1.39185860398927695302L},
{3,0.01,1,8.88844267773445472559e-3L,1.68485379566930011403e+1L},
{8,0.01,1,2.78552947081908807561e-8L,2.12643865334270195756e+6L},
{0,0.01,2.3,7.6134269608693796952e-1L,-6.51485902174317940323e-1L},
{1,0.01,2.3,9.88023545015411247193e-1L,4.67945111954120986042e-1L},
{3,0.01,2.3,1.95087920658674118727e-1L,2.30105590726887266899L},
{8,0.01,2.3,4.48407256358489471802e-5L,3.13514382187894196685e+3L},
{0,0.01,5,-9.67667659642205779298e-1L,2.56102952899197955335e-1L},
{1,0.01,5,-4.5897111909579122638e-1L,-9.11889672100930588333e-1L},
{3,0.01,5,1.15012270423196878666L,8.81752386725628391235e-2L},
{8,0.01,5,2.84247759762883327883e-2L,1.29314081452680707799e+1L},
{0,0.01,10,-5.1394003300775852252e-1L,-8.58406812249017515174e-1L},
{1,0.01,10,8.00953336352515341554e-1L,-6.07865088272649856505e-1L},
{3,0.01,10,-4.11447365873392702601e-1L,9.46907404244763852984e-1L},
{8,0.01,10,1.2547672577575801199L,4.19692985453061442043e-1L},
{0,0.01,20,8.94932777142895995289e-1L,4.46760648872952297437e-1L},
{1,0.01,20,-3.92810727479741028694e-1L,9.21250902094223918352e-1L},
{3,0.01,20,1.44871848062917472615e-1L,-9.97406543099443963554e-1L},
{8,0.01,20,1.88655990217251468958e-1L,-1.03380691264321791687L},
{0,0.01,40,7.77355699625538053871e-1L,-6.29259987563027157821e-1L},
{1,0.01,40,6.56279766514436160855e-1L,7.55097578004126515504e-1L},
{3,0.01,40,-7.52059846328739566874e-1L,-6.62137802620829438008e-1L},
{8,0.01,40,-4.0576060111421175992e-2L,-1.01088374815043181111L},
{0,0.01,80,-9.86126908524296782567e-1L,-1.66369269872828292768e-1L},
{1,0.01,80,1.44152640721606417776e-1L,-9.89697599493653067096e-1L},
{3,0.01,80,-7.3764696578179417376e-2L,9.97808967173435070629e-1L},
{8,0.01,80,-9.54950478055205301797e-1L,3.06379306089819518318e-1L},
{0,0.01,200,-9.03415067949482950096e-1L,4.28825393519314773446e-1L},
{1,0.01,200,-4.4233317482896420953e-1L,-8.96892618612287147621e-1L},
{3,0.01,200,4.720087188676965265e-1L,8.81707334139545263946e-1L},
{8,0.01,200,-7.96227561157167346371e-1L,6.05782957966287540753e-1L},
{0,0.1,0.015625,1.32648304589962445414e-2L,1.16525439676347615686L},
{1,0.1,0.015625,6.93791669095376838582e-5L,7.50192803191376237989e+1L},
{3,0.1,0.015625,4.84640280277731519607e-10L,4.60522283166769070266e+6L},
{8,0.1,0.015625,1.37616601830066609553e-24L,6.67869475017313210917e+20L},
{0,0.1,0.1,8.54741911014059442807e-2L,1.12541825291403973838L},
{1,0.1,0.1,2.85099776520613664623e-3L,1.16789143280649233812e+1L},
{3,0.1,0.1,8.14366742890053548216e-7L,1.75352959598301131286e+4L},
{8,0.1,0.1,2.48076851855778345813e-17L,2.37101879585766379955e+14L},
{0,0.1,0.31,2.66728825943166313526e-1L,1.05446715636203163055L},
{1,0.1,0.31,2.7449849027761475e-2L,3.83903820982231050756L},
{3,0.1,0.31,7.52435677248521159248e-5L,5.89563853589496866168e+2L},
{8,0.1,0.31,6.55950113938005155691e-13L,2.78065997681756123291e+10L},
{0,0.1,1,7.91623303300520666652e-1L,6.7909655949555553348e-1L},
{1,0.1,1,2.69956825427247049025e-1L,1.48854125018429062181L},
{3,0.1,1,7.88222015696633159333e-3L,1.88397009612844142753e+1L},
{8,0.1,1,2.44122267766478677697e-8L,2.42327777259144475212e+6L},
{0,0.1,2.3,8.87653804615688546547e-1L,-5.04922576533438705604e-1L},
{1,0.1,2.3,9.61461438215715366992e-1L,5.74067954126761652393e-1L},
{3,0.1,2.3,1.78472177135441101173e-1L,2.45005545081337609265L},
{8,0.1,2.3,3.98197951291615754747e-5L,3.51951364984306791413e+3L},
{0,0.1,5,-1.01005645668061278766L,3.98547641685860419145e-5L},
{1,0.1,5,-3.03529257846686313871e-1L,-9.85118293677353893822e-1L},
{3,0.1,5,1.15527028969339312247L,1.86791866328550668197e-1L},
{8,0.1,5,2.59889254468331145479e-2L,1.40001046414880667853e+1L},
{0,0.1,10,-2.17931131271470178651e-1L,-9.81125315030228558269e-1L},
{1,0.1,10,9.23014864722704746654e-1L,-4.10422961416760828106e-1L},
{3,0.1,10,-5.54269823820606043399e-1L,8.77306773935409592029e-1L},
{8,0.1,10,1.24374558620515593918L,4.95841449292263156722e-1L},
{0,0.1,20,6.64366771217295749145e-1L,7.50765081762087720633e-1L},
{1,0.1,20,-6.44055732052534374e-1L,7.699100226506191858e-1L},
{3,0.1,20,3.58053784440422515267e-1L,-9.44641609649861122887e-1L},
{8,0.1,20,3.26808482981940003947e-1L,-1.0018147226777106316L},
{0,0.1,40,9.73808976197704172282e-1L,-2.3281902849209124954e-1L},
{1,0.1,40,3.522363120766434285e-1L,9.37586217163090963994e-1L},
{3,0.1,40,-5.39520552287623131956e-1L,-8.45708178428062386875e-1L},
{8,0.1,40,1.61837288735108144452e-1L,-9.99880602949678128064e-1L},
{0,0.1,80,-7.80948963577949545324e-1L,-6.25596488603684989732e-1L},
{1,0.1,80,5.34286404977605396021e-1L,-8.46136587876215083175e-1L},
{3,0.1,80,-4.05823671654161206821e-1L,9.15151096761146628406e-1L},
{8,0.1,80,-1.00237421311496966001L,4.68100083485177745458e-2L},
{0,0.1,200,-9.89377474588621685729e-1L,-1.47080188401817529179e-1L},
{1,0.1,200,4.29067579690598340259e-2L,-9.99341991867458123674e-1L},
{3,0.1,200,6.53520917532791731338e-2L,9.98188222039445499621e-1L},
{8,0.1,200,-9.54851559991665693885e-1L,2.9943514305816495564e-1L},
{0,0.5,0.015625,5.9315781178968025171e-3L,2.50174798213593058448L},
{1,0.5,0.015625,3.44063296226208861654e-5L,1.50805274614303696979e+2L},
{3,0.5,0.015625,2.50311889092627289883e-10L,8.91174336462407401616e+6L},
{8,0.5,0.015625,7.24396949687075837023e-25L,1.26866838324260503651e+21L},
{0,0.5,0.1,3.95188024090403369199e-2L,2.12437448411680642711L},
{1,0.5,0.1,1.43784308070265119904e-3L,2.27102455905246820233e+1L},
{3,0.5,0.1,4.2417313102520921748e-7L,3.35543354916361469125e+4L},
{8,0.5,0.1,1.31075140850953409748e-17L,4.48497266039268145558e+14L},
{0,0.5,0.31,1.33770548517418089197e-1L,1.71275251523627181139L},
{1,0.5,0.31,1.44320770037399296005e-2L,6.87106225828530728554L},
{3,0.5,0.31,4.00212722817107663604e-5L,1.09710890868250912255e+3L},
{8,0.5,0.31,3.49829459701523606616e-13L,5.20493467030864480451e+10L},
{0,0.5,1,5.16601500314181575102e-1L,1.19748697079848554629L},
{1,0.5,1,1.62765798662369782043e-1L,2.10866037657113078665L},
{3,0.5,1,4.49182122717903515753e-3L,3.19041912766948208366e+1L},
{8,0.5,1,1.34249784647976692148e-8L,4.38197060520179658055e+6L},
{0,0.5,2.3,1.09526106372482335712L,2.79408208199061613069e-1L},
{1,0.5,2.3,7.73317726601852872589e-1L,1.01391216043202311603L},
{3,0.5,2.3,1.1640580126978422239e-1L,3.35833697591417550918L},
{8,0.5,2.3,2.32131805828089848562e-5L,5.95601674655881884677e+3L},
{0,0.5,5,-4.90455237533706981134e-1L,-9.3492703845987328011e-1L},
{1,0.5,5,4.3810654362876038221e-1L,-9.88529636411248069813e-1L},
{3,0.5,5,1.09973146231190686575L,6.12982481374425503104e-1L},
{8,0.5,5,1.72202462267324245972e-2L,2.02468025284876676378e+1L},
{0,0.5,10,9.39186276353922696779e-1L,-4.14351069390209494322e-1L},
{1,0.5,10,8.58011085623972772842e-1L,5.73804572842678223314e-1L},
{3,0.5,10,-1.00320105813569211303L,3.51459433946142159091e-1L},
{8,0.5,10,1.15846586252169087537L,8.20397415947219045978e-1L},
{0,0.5,20,-8.13196122898240691711e-1L,6.03865910490708001004e-1L},
{1,0.5,20,-9.26972865702159011585e-1L,-4.1153648920480466264e-1L},
{3,0.5,20,9.9028786446777819363e-1L,-2.4857489980937902643e-1L},
{8,0.5,20,8.41742301416433668436e-1L,-6.55919260462551443557e-1L},
{0,0.5,40,-1.31574122752410238141e-1L,9.97709074650301030617e-1L},
{1,0.5,40,-9.42959131653837043917e-1L,3.52437779598540422229e-1L},
{3,0.5,40,6.31764681615918479092e-1L,-7.85825876840123700185e-1L},
{8,0.5,40,8.82857118405581907829e-1L,-5.07428306788541612528e-1L},
{0,0.5,80,9.71744553932056271776e-1L,-2.4904060941336355136e-1L},
{1,0.5,80,6.66828430166224249993e-1L,7.49538373464441647504e-1L},
{3,0.5,80,-9.35381933896772474833e-1L,-3.63766171628174969306e-1L},
{8,0.5,80,-4.34467850171865629934e-1L,-9.07373427162505785603e-1L},
{0,0.5,200,9.17754704676973649315e-1L,-4.00294497259723598001e-1L},
{1,0.5,200,7.71679947762525976731e-1L,6.38000493248353050709e-1L},
{3,0.5,200,-9.68774628508723582569e-1L,-2.53251381356198282025e-1L},
{8,0.5,200,-3.29719659960231063805e-1L,-9.45887053657379483287e-1L},
{0,1,0.015625,1.72064068008212809232e-3L,8.2736032662427564898L},
{1,1,0.015625,1.25757229066888672245e-5L,4.1101598719315860318e+2L},
{3,1,0.015625,1.02979133096171607282e-10L,2.16477504171428537675e+7L},
{8,1,0.015625,3.1635593764869800138e-25L,2.90470231673613737001e+21L},
{0,1,0.1,1.19439295585516284383e-2L,6.12282205819857411933L},
{1,1,0.1,5.36649763934007997044e-4L,5.9477292520539190557e+1L},
{3,1,0.1,1.76352152820895222821e-7L,8.03755578407971137003e+4L},
{8,1,0.1,5.75114710464943235385e-18L,1.02146774301372085411e+15L},
{0,1,0.31,4.45088794410242331099e-2L,4.00273599105467292491L},
{1,1,0.31,5.66892977741843855562e-3L,1.63966835292806876893e+1L},
{3,1,0.31,1.70782714421879207871e-5L,2.5389844421636049033e+3L},
{8,1,0.31,1.5529211991716097015e-13L,1.1700168190735849537e+11L},
{0,1,1,2.27526210510560029239e-1L,2.04309716210353807236L},
{1,1,1,7.51781774630686592432e-2L,3.78287451051056818814L},
{3,1,1,2.08649886752566275026e-3L,6.59452064280681658851e+1L},
{8,1,1,6.19156318659227069685e-9L,9.43597145712460995141e+6L},
{0,1,2.3,8.04713774034349184411e-1L,1.09846892680967474045L},
{1,1,2.3,4.86856874657534041457e-1L,1.54328653227266697769L},
{3,1,2.3,6.35653726654561457316e-2L,5.44273458664423213444L},
{8,1,2.3,1.15081790616216773322e-5L,1.18179764928972121077e+4L},
{0,1,5,6.849374120059439677e-1L,-8.98414359092020548693e-1L},
{1,1,5,1.09288110493667478233L,-4.01136354144033912342e-1L},
{3,1,5,9.04222651420796356819e-1L,1.09153533307187735648L},
{8,1,5,9.98520667838485392394e-3L,3.3276157344550961298e+1L},
{0,1,10,4.77560815862574043065e-1L,9.42874242653780873396e-1L},
{1,1,10,-2.23322853772185013728e-1L,1.0397448829045167391L},
{3,1,10,-9.82017389308934882415e-1L,-4.9400808102605009542e-1L},
{8,1,10,9.93020442990891316526e-1L,1.19169381922331054042L},
{0,1,20,-3.29225536265753988395e-1L,-9.72428398697119899587e-1L},
{1,1,20,4.07618829428317247182e-1L,-9.43810917984056421133e-1L},
{3,1,20,6.13901571931595501682e-1L,8.33699978635700625051e-1L},
{8,1,20,1.08275523792689376076L,7.08815562093627384588e-2L},
{0,1,40,-7.06065135769471837004e-1L,-7.26251487125674329239e-1L},
{1,1,40,-1.13703275365736202447e-2L,-1.01317068670935552111L},
{3,1,40,8.09472445021579598342e-1L,6.12203527813484890149e-1L},
{8,1,40,8.56637965120014200873e-1L,5.63301342046252810548e-1L},
{0,1,80,-6.9967945265970008234e-1L,7.23316648570451567919e-1L},
{1,1,80,-1.00600096235838523182L,2.93712546324605562055e-2L},
{3,1,80,6.43452224091708340695e-1L,-7.74391693489880259826e-1L},
{8,1,80,8.56057512065980986142e-1L,-5.34599014018167958982e-1L},
{0,1,200,-8.79093972177872491929e-1L,4.81904076398878853605e-1L},
{1,1,200,-9.63778816878774244033e-1L,-2.76031742072597416125e-1L},
{3,1,200,8.64270446582832404086e-1L,-5.08160066451870420484e-1L},
{8,1,200,1.00285760128417794787L,1.51415144448817383862e-2L},
{0,2.5,0.015625,2.49906334263836596848e-5L,5.21132644484497213543e+2L},
{1,2.5,0.015625,3.43765388774781768485e-7L,1.48683635736882253257e+4L},
{3,2.5,0.015625,4.94831656228617058726e-12L,4.49635403661153746852e+8L},
{8,2.5,0.015625,2.21927572823963790907e-26L,4.13928275746150215406e+22L},
{0,2.5,0.1,1.95362594471507032711e-4L,2.91852900220568507355e+2L},
{1,2.5,0.1,1.56088352221704365282e-5L,1.92435077554004123177e+3L},
{3,2.5,0.1,8.74490361100725094665e-9L,1.60133783027319429598e+6L},
{8,2.5,0.1,4.09156947734057803822e-19L,1.4328104359351864197e+16L},
{0,2.5,0.31,9.43052538305592287246e-4L,1.26528645838865411292e+2L},
{1,2.5,0.31,1.9111953037379124386e-4L,4.19459951230708329253e+2L},
{3,2.5,0.31,9.14935536448191093273e-7L,4.57335332649481118592e+4L},
{8,2.5,0.31,1.14399847565173422506e-14L,1.57815511892132676561e+12L},
{0,2.5,1,9.30082524014043098e-3L,2.64005164998410198025e+1L},
{1,2.5,1,3.9267955821436400106e-3L,5.10771996727482749498e+1L},
{3,2.5,1,1.4296096195474668099e-4L,8.67532362780014505834e+2L},
{8,2.5,1,5.11073838651834236755e-10L,1.12036307578357008588e+8L},
{0,2.5,2.3,8.65183090458000611459e-2L,5.40340477483237343419L},
{1,2.5,2.3,5.30699787880241460449e-2L,7.6070517373283698465L},
{3,2.5,2.3,6.80923409950073983074e-3L,3.94736898659632703094e+1L},
{8,2.5,2.3,1.17512608171563457564e-6L,1.1050368357602025668e+5L},
{0,2.5,5,8.09551965068304961126e-1L,1.44420272109402977704L},
{1,2.5,5,6.69218626234116678615e-1L,1.65261539110135031882L},
{3,2.5,5,2.59156422968789246493e-1L,2.85107124529423906577L},
{8,2.5,5,1.59864763225239398827e-3L,1.84385887681653796526e+2L},
{0,2.5,10,-3.03513827481800020591e-1L,-1.14562782020423644916L},
{1,2.5,10,7.21997355546924365367e-3L,-1.19638461549035501921L},
{3,2.5,10,1.04054268097771961418L,-7.1152350741396527753e-1L},
{8,2.5,10,4.38060432233298915044e-1L,2.36085358323948303398L},
{0,2.5,20,-9.48128543612997003317e-1L,5.05343325648697625863e-1L},
{1,2.5,20,-1.06196668745116203356L,1.7430874993048996142e-1L},
{3,2.5,20,-4.73092915304186238719e-1L,-9.76783777464458464262e-1L},
{8,2.5,20,-6.07615148776565935388e-1L,9.7594681122452571788e-1L},
{0,2.5,40,-1.01771236979953979407L,-1.82419506187776026567e-1L},
{1,2.5,40,-8.91333413448287718686e-1L,-5.24693708487777724525e-1L},
{3,2.5,40,3.8704225694708629107e-1L,-9.61154842300170170469e-1L},
{8,2.5,40,-8.12706275712978282885e-1L,-6.61118787048968149995e-1L},
{0,2.5,80,-9.54647167739301510268e-1L,3.48484371818235994107e-1L},
{1,2.5,80,-1.01618778807244914704L,-1.80853345212336892214e-2L},
{3,2.5,80,-6.67711020954938431535e-2L,-1.01457786798718187331L},
{8,2.5,80,-8.22766686656089893968e-1L,-6.01746512815126523693e-1L},
{0,2.5,200,-2.25193871954825841477e-1L,-9.80829708973103309642e-1L},
{1,2.5,200,1.50180745329608672105e-1L,-9.95093417391270825234e-1L},
{3,2.5,200,1.00092248470299794962L,1.05115238429879681801e-1L},
{8,2.5,200,8.64334048530919630728e-1L,-5.16335109700135078757e-1L},
{0,4.999,0.015625,1.42991070488929198409e-8L,8.1933885091558982716e+5L},
{1,4.999,0.015625,3.6544422681586812854e-10L,1.37388494868783073587e+7L},
{3,4.999,0.015625,1.30804318465026293333e-14L,1.69549955925918280886e+11L},
{8,4.999,0.015625,1.56747686712837522675e-28L,5.85733522052801395609e+24L},
{0,4.999,0.1,1.34561350258462075842e-7L,3.32234049861753717733e+5L},
{1,4.999,0.1,1.83596119607949891251e-8L,1.50305823132548158723e+6L},
{3,4.999,0.1,2.43525419839933080312e-11L,5.6391677400851400105e+8L},
{8,4.999,0.1,2.95821025680294538825e-21L,1.97495779504486669126e+18L},
{0,4.999,0.31,9.32993581183484477995e-7L,9.26257376248706671894e+4L},
{1,4.999,0.31,2.8284895596562261884e-7L,2.38322057681594477349e+5L},
{3,4.999,0.31,2.89017192958729266264e-9L,1.37170352061848696611e+7L},
{8,4.999,0.31,8.76334199571685589916e-17L,2.03879952158549788068e+14L},
{0,4.999,1,2.04650473388266529815e-5L,8.06584743684040059343e+3L},
{1,4.999,1,1.0786240151638630416e-5L,1.38359818905310824002e+4L},
{3,4.999,1,6.63930002704596665865e-7L,1.63276854615148378631e+5L},
{8,4.999,1,4.71886910852282551167e-12L,1.17539734914368361522e+10L},
{0,4.999,2.3,5.33662815717939818904e-4L,5.10358815413474177251e+2L},
{1,4.999,2.3,3.61718555022997740335e-4L,7.13484430484442228985e+2L},
{3,4.999,2.3,6.05992641204115503575e-5L,3.46959158838920687756e+3L},
{8,4.999,2.3,1.52742686244038389269e-8L,7.93828451910179166844e+6L},
{0,4.999,5,2.77189851153482756027e-2L,1.81671548147398524688e+1L},
{1,4.999,5,2.23038053429233604793e-2L,2.1694536759152999269e+1L},
{3,4.999,5,7.92225488042191977546e-3L,5.19761957810174527665e+1L},
{8,4.999,5,4.15450662920872272265e-5L,6.10650593713175975267e+3L},
{0,4.999,10,9.18574840547837686415e-1L,1.60745452834451628263L},
{1,4.999,10,8.53812169441977374663e-1L,1.7076649890370023112L},
{3,4.999,10,5.7905119597500600497e-1L,2.20265397087822020362L},
{8,4.999,10,4.49019314480388816808e-2L,1.32908947480697363033e+1L},
{0,4.999,20,-2.27280165526661740127e-1L,1.16606180727118435923L},
{1,4.999,20,-3.8770133444927727641e-1L,1.12605453822904817122L},
{3,4.999,20,-9.87811838307370677912e-1L,6.91995782728972366261e-1L},
{8,4.999,20,4.06484791115862643562e-1L,-1.25745064788867900897L},
{0,4.999,40,-2.66311986168334172183e-1L,-1.04098201356587417974L},
{1,4.999,40,-8.56962454713949296042e-2L,-1.07153309605111019546L},
{3,4.999,40,6.99911724667704716393e-1L,-8.18836803135260120316e-1L},
{8,4.999,40,-9.50397432516175467385e-1L,5.36193939793883344068e-1L},
{0,4.999,80,9.14633271332676165212e-1L,-4.82149619517739817285e-1L},
{1,4.999,80,9.87656633731105963715e-1L,-3.06182184768935120947e-1L},
{3,4.999,80,8.78734612749072720263e-1L,5.45888789653860287875e-1L},
{8,4.999,80,-2.51639501939291993267e-1L,-1.00629844376716150917L},
{0,4.999,200,-9.19763525378211304314e-1L,-4.24273075744218752044e-1L},
{1,4.999,200,-8.21693333966049669556e-1L,-5.9230030325991692944e-1L},
{3,4.999,200,-5.10989019471460954896e-2L,-1.01169338886042438295L},
{8,4.999,200,-8.2748143847017242924e-1L,5.84996034062285150836e-1L},
{0,5,0.015625,1.42558983749589034762e-8L,8.21792168169061855656e+5L},
{1,5,0.015625,3.64407289180084408096e-10L,1.37778480898452788996e+7L},
{3,5,0.015625,1.30474341020269444374e-14L,1.69978539732042671257e+11L},
{8,5,0.015625,1.56418804466535516206e-28L,5.86964943532548231738e+24L},
{0,5,0.1,1.34164319098502687486e-7L,3.33191530718995491067e+5L},
{1,5,0.1,1.8308248446412796814e-8L,1.50722852261756661736e+6L},
{3,5,0.1,2.42916127268900215345e-11L,5.65326888965166789598e+8L},
{8,5,0.1,2.95203103125682617027e-21L,1.97908908867263148042e+18L},
{0,5,0.31,9.3036354126439225847e-7L,9.28787095908731860365e+4L},
{1,5,0.31,2.8208255867582026123e-7L,2.38955622534340015327e+5L},
{3,5,0.31,2.88308434578475605915e-9L,1.37504754364997823455e+7L},
{8,5,0.31,8.74523848240408308248e-17L,2.04301159990956121465e+14L},
{0,5,1,2.04130121257175595934e-5L,8.0855256057398625062e+3L},
{1,5,1,1.07594548460571119175e-5L,1.38691919181833479237e+4L},
{3,5,1,6.62400384538394756894e-7L,1.63646189358367501079e+5L},
{8,5,1,4.70946954431747036908e-12L,1.17772878412911413802e+10L},
{0,5,2.3,5.32489943200953195493e-4L,5.11416590957378410694e+2L},
{1,5,2.3,3.609346704408520856e-4L,7.14950805577369964311e+2L},
{3,5,2.3,6.04742799093136769078e-5L,3.47649423253020854931e+3L},
{8,5,2.3,1.52458856385039820587e-8L,7.95285934767657028919e+6L},
{0,5,5,2.7673011668558374372e-2L,1.81934951590108112478e+1L},
{1,5,5,2.22669570737972092953e-2L,2.17262189626191912285e+1L},
{3,5,5,7.9093385140924721769e-3L,5.20538633670450542493e+1L},
{8,5,5,4.14788617508129536628e-5L,6.1159363652772130264e+3L},
{0,5,10,9.17944918945897700483e-1L,1.60852455559983550866L},
{1,5,10,8.53200693406966085135e-1L,1.70871952005492969573L},
{3,5,10,5.78570039797120526168e-1L,2.20383737691277884438L},
{8,5,10,4.48526030535062565296e-2L,1.33035096320174178169e+1L},
{0,5,20,-2.29347373002198651599e-1L,1.16571667134478070418L},
{1,5,20,-3.89659927606541118958e-1L,1.12544100788669966868L},
{3,5,20,-9.88937379916852927923e-1L,6.90496345037686892854e-1L},
{8,5,20,4.07763974226005980506e-1L,-1.25713801852247215761L},
{0,5,40,-2.63576602454556642693e-1L,-1.04169642869945845733L},
{1,5,40,-8.29197720087070271378e-2L,-1.07176950790589338256L},
{3,5,40,7.01913563370238237092e-1L,-8.17145343017686320311e-1L},
{8,5,40,-9.51452547943157903611e-1L,5.34358902417598367191e-1L},
{0,5,80,9.16272349316405673394e-1L,-4.79043346784941162341e-1L},
{1,5,80,9.88686390288034089781e-1L,-3.02865738983781042266e-1L},
{3,5,80,8.76989181119604366403e-1L,5.48702456050127352035e-1L},
{8,5,80,-2.48905723345471986026e-1L,-1.00698585212427803379L},
{0,5,200,-9.17910240579322855685e-1L,-4.28274182522323357604e-1L},
{1,5,200,-8.19132176669737762489e-1L,-5.95841809253552446125e-1L},
{3,5,200,-4.68924471358308084129e-2L,-1.01189975371187671337L},
{8,5,200,-8.29628878731888242054e-1L,5.81951226130415566005e-1L},
{0,7,0.015625,3.24692868022908650575e-11L,3.37429525573822116453e+8L},
{1,7,0.015625,1.13401800295360218782e-12L,4.36732744570272957871e+9L},
{3,7,0.015625,7.11430306714665445848e-17L,3.10938776097237365451e+13L},
{8,7,0.015625,1.99113527211115237486e-30L,4.6090599914586494113e+26L},
{0,7,0.1,3.51105903256349027861e-10L,1.11260497159658516321e+8L},
{1,7,0.1,6.16629616879669355844e-11L,4.22328438900630495175e+8L},
{3,7,0.1,1.38052529348148287842e-13L,9.79879531697635798378e+10L},
{8,7,0.1,3.82862735974197661331e-23L,1.52179689087406051787e+20L},
{0,7,0.31,3.12110465805548114785e-9L,2.35436257858352880366e+7L},
{1,7,0.31,1.12787480897750793134e-9L,5.38192842202859750328e+7L},
{3,7,0.31,1.80822437801764808555e-11L,2.10812000049048763251e+9L},
{8,7,0.31,1.18762794094717378109e-18L,1.49212008803843006816e+16L},
{0,7,1,1.13996251643245239992e-7L,1.2080937820143293299e+6L},
{1,7,1,6.60434484884897190533e-8L,1.94048516955903876879e+6L},
{3,7,1,5.55126045210515818096e-9L,1.79144689451900859946e+7L},
{8,7,1,7.40899040958713063731e-14L,7.30810947781833134745e+11L},
{0,7,2.3,5.57500406774927396809e-6L,3.96522563518463150888e+4L},
{1,7,2.3,3.97536728098326414278e-6L,5.36418691576548582927e+4L},
{3,7,2.3,8.03395030693006912949e-7L,2.2881494134941198294e+5L},
{8,7,2.3,3.12184981456999739291e-10L,3.6990449228881648693e+8L},
{0,7,5,7.58864347649606695815e-4L,4.91013388022069006856e+2L},
{1,7,5,6.20290784257760745011e-4L,5.87710355817781346912e+2L},
{3,7,5,2.34039124063815443234e-4L,1.41391197727381434995e+3L},
{8,7,5,1.4194861163246662254e-6L,1.62700852664909536994e+5L},
{0,7,10,1.25107583165300498319e-1L,6.49440862488471767362L},
{1,7,10,1.13064484819885136877e-1L,6.99964222362664000043L},
{3,7,10,6.8475961229175305291e-2L,1.0301091512080190945e+1L},
{8,7,10,3.88964743740260723539e-3L,1.21724839725698152291e+2L},
{0,7,20,6.43447662547434447539e-2L,-1.34304193176802671314L},
{1,7,20,1.69458014316689259955e-1L,-1.33915884196406634865L},
{3,7,20,6.45586072082334624275e-1L,-1.2169174213347968737L},
{8,7,20,1.48649986591743554209L,6.38409902062418038323e-1L},
{0,7,40,-1.10617563255035936798L,1.28490093312783304368e-1L},
{1,7,40,-1.11414654935281002796L,1.56886284788919153716e-3L},
{3,7,40,-9.56006995733843541091e-1L,-5.77391546144540252344e-1L},
{8,7,40,1.13217072931702838235L,5.88731354027647338779e-2L},
{0,7,80,9.84663301176839206717e-1L,-3.62476806551552860908e-1L},
{1,7,80,1.02316138193790544115L,-2.33024744397585938049e-1L},
{3,7,80,9.695200775186410323e-1L,4.02783822296242250647e-1L},
{8,7,80,-9.91163470492222620195e-1L,-3.55144155147484962632e-1L},
{0,7,200,8.13331355188089145116e-1L,-6.12734242754271553785e-1L},
{1,7,200,8.89308750480641822803e-1L,-4.96093707674511269438e-1L},
{3,7,200,1.00712246149616254088L,1.51072089576548009842e-1L},
{8,7,200,-9.60500092219790837099e-1L,-3.39699327527280017541e-1L},
{0,10,0.015625,3.27572638272228666348e-15L,3.07582795847611605952e+12L},
{1,10,0.015625,1.59097789110790747904e-16L,3.05254666495614172647e+13L},
{3,10,0.015625,1.89486685362722368465e-20L,1.16297981368420009048e+17L},
{8,10,0.015625,1.71897992997549505633e-33L,5.33532195049735399116e+29L},
{0,10,0.1,4.30566371311562250193e-14L,7.78709182317997784288e+11L},
{1,10,0.1,9.71232592724574632461e-15L,2.486650224820639891e+12L},
{3,10,0.1,3.91071923980426089154e-17L,3.38475879143956944825e+14L},
{8,10,0.1,3.39905657291179201423e-26L,1.70715884688905168187e+23L},
{0,10,0.31,5.30538355744277698627e-13L,1.16368923391426541068e+11L},
{1,10,0.31,2.25968062641212325584e-13L,2.37116464491851353446e+11L},
{3,10,0.31,5.91723099342733987557e-15L,6.10681157566465431007e+12L},
{8,10,0.31,1.1292827113855895043e-21L,1.55043071501877821155e+19L},
{0,10,1,3.69658555327871896819e-11L,3.08818493367358460606e+9L},
{1,10,1,2.33733453716699734282e-11L,4.64441927754280921147e+9L},
{3,10,1,2.73498303761167387308e-12L,3.26903638550217822996e+10L},
{8,10,1,8.7511317710800607241e-17L,5.98017880586823794193e+14L},
{0,10,2.3,3.95276545327104577664e-9L,4.5504582565031335705e+7L},
{1,10,2.3,2.96232499540594211482e-9L,5.92757359698666241284e+7L},
{3,10,2.3,7.36452381482215085131e-10L,2.14620091639081769259e+8L},
{8,10,2.3,5.39428289377928925224e-13L,2.00565113053860524337e+11L},
{0,10,5,1.72074540917879306145e-6L,1.6763756609459967623e+5L},
{1,10,5,1.43822712319011253926e-6L,1.97940155253052329238e+5L},
{3,10,5,5.97800903327764455147e-7L,4.47978850462610409582e+5L},
{8,10,5,5.02109775946301282455e-9L,4.10362091530546903117e+7L},
{0,10,10,1.6262711250135878249e-3L,3.0787321661090837987e+2L},
{1,10,10,1.46462416904183272364e-3L,3.38456647605661621333e+2L},
{3,10,10,8.73102317437001097965e-4L,5.41638634334760943024e+2L},
{8,10,10,4.65893112244265454463e-5L,8.18422071253159325369e+3L},
{0,10,20,1.03427445302020306317L,1.7996875669751118655L},
{1,10,20,1.00554940985634837514L,1.84591090338121020647L},
{3,10,20,8.67667311109862830161e-1L,2.073829383034247872L},
{8,10,20,3.08121231850560400223e-1L,3.96245723609733163593L},
{0,10,40,-1.07862478028378694703L,5.00074746949031112637e-1L},
{1,10,40,-1.11182466617922717006L,4.23216421423366342288e-1L},
{3,10,40,-1.19311265718942694817L,2.54425921803191058554e-2L},
{8,10,40,2.3387024306662291699e-1L,-1.19439784690421656749L},
{0,10,80,-2.79308235289508370355e-1L,1.03762384892988000556L},
{1,10,80,-3.67715192892310856463e-1L,1.00980314613913001643L},
{3,10,80,-7.49338676729969898143e-1L,7.71111687770318969285e-1L},
{8,10,80,-1.10802636139510375114e-1L,-1.07291817293742934243L},
{0,10,200,-2.10688607321585343358e-1L,-1.00483928784596376148L},
{1,10,200,-1.14896321557013360312e-1L,-1.02025477164206649155L},
{3,10,200,3.53092241243704673634e-1L,-9.64154173409496939716e-1L},
{8,10,200,2.78418728434724947239e-1L,9.88751899550126660629e-1L},
{0,14.999,0.015625,6.52729595184019722037e-22L,1.37974562736715035575e+19L},
{1,14.999,0.015625,4.57807819999884010035e-23L,1.02883467561529748215e+20L},
{3,14.999,0.015625,1.16313922683677135425e-26L,1.882735378967899066e+23L},
{8,14.999,0.015625,5.30497945421465865749e-39L,1.72694762158937578163e+35L},
{0,14.999,0.1,1.15466577733611431874e-20L,2.41738744063209660424e+18L},
{1,14.999,0.1,3.3652662037403453707e-21L,6.46581716679035493471e+18L},
{3,14.999,0.1,2.65693339578668065149e-23L,4.81484952969339489771e+20L},
{8,14.999,0.1,1.09889346749970579551e-31L,5.24521842178531813315e+28L},
{0,14.999,0.31,2.26049024063483162262e-19L,2.23671906240389546027e+17L},
{1,14.999,0.31,1.1283205867520520124e-19L,4.05933128107144231041e+17L},
{3,14.999,0.31,5.0682928887442043379e-21L,6.5954694345826157746e+18L},
{8,14.999,0.31,4.08900961480084233309e-27L,4.19949210842336675466e+24L},
{0,14.999,1,3.83813530826070485143e-17L,2.4114774469918915315e+15L},
{1,14.999,1,2.63920997352745658238e-17L,3.39142236087836988598e+15L},
{3,14.999,1,4.38490965407332913091e-18L,1.77514650573017838737e+16L},
{8,14.999,1,4.50559434092470207623e-22L,1.10265201355903347277e+20L},
{0,14.999,2.3,1.19050411115844784925e-14L,1.20859243975210086745e+13L},
{1,14.999,2.3,9.37742713536821659267e-15L,1.51077429729371667323e+13L},
{3,14.999,2.3,2.91596978927364770713e-15L,4.52598555439366724117e+13L},
{8,14.999,2.3,5.05761549158337017933e-18L,1.94986938579126774654e+16L},
{0,14.999,5,2.43821371541313314827e-11L,9.16578238801567459325e+9L},
{1,14.999,5,2.09261858942800691264e-11L,1.05949814932079949447e+10L},
{3,14.999,5,9.83585087806289985345e-12L,2.17023219388408417748e+10L},
{8,14.999,5,1.39012952461995884246e-13L,1.28057762679800565986e+12L},
{0,14.999,10,2.0609133284526778267e-7L,1.7154058610543593864e+6L},
{1,14.999,10,1.871010587121905901e-7L,1.88012602553271770906e+6L},
{3,14.999,10,1.15814143436663744468e-7L,2.9648146056849136606e+6L},
{8,14.999,10,7.29635336971807525156e-9L,4.15435398663814226759e+7L},
{0,14.999,20,7.75318219997218690571e-3L,9.15509679780753695292e+1L},
{1,14.999,20,7.37875035900653072441e-3L,9.570975432939357796e+1L},
{3,14.999,20,5.76368983303417569313e-3L,1.19550785978807018794e+2L},
{8,14.999,20,1.33085731046145543591e-3L,4.56381520316870892908e+2L},
{0,14.999,40,-1.28405665863062374888L,-5.84207539965315132023e-1L},
{1,14.999,40,-1.26536523393044254252L,-6.27510733931463623258e-1L},
{3,14.999,40,-1.15316981538144388845L,-8.30495517285622136253e-1L},
{8,14.999,40,-9.62463432408112201115e-2L,-1.4759366886710648121L},
{0,14.999,80,4.60661863002740905123e-1L,1.02596848529488981493L},
{1,14.999,80,4.06120941410115394392e-1L,1.04890539396994112311L},
{3,14.999,80,1.22722990686882811586e-1L,1.11877596801327937479L},
{8,14.999,80,-1.10494647731588444847L,2.35464125382538326039e-1L},
{0,14.999,200,-9.34377498160520866983e-1L,4.59981562104398839801e-1L},
{1,14.999,200,-9.60843820997085552855e-1L,4.01815130035754421949e-1L},
{3,14.999,200,-1.03713681332327940349L,9.58280877153047617378e-2L},
{8,14.999,200,7.34070714166714032637e-2L,-1.03942577587207105655L},
{0,15,0.015625,6.50713348786642106192e-22L,1.38399314508366478821e+19L},
{1,15,0.015625,4.56420822829869479478e-23L,1.03195506806579269357e+20L},
{3,15,0.015625,1.15976127382885523445e-26L,1.88821672836362091638e+23L},
{8,15,0.015625,5.29107650814041372524e-39L,1.7314850128963016446e+35L},
{0,15,0.1,1.15116401922266587077e-20L,2.42466622983664414749e+18L},
{1,15,0.1,3.3551925536546997109e-21L,6.48510823450083274463e+18L},
{3,15,0.1,2.64927059609835666184e-23L,4.82874427179826391828e+20L},
{8,15,0.1,1.09602373167974590376e-31L,5.25894504915862494563e+28L},
{0,15,0.31,2.25382651709454856075e-19L,2.24325827844073621396e+17L},
{1,15,0.31,1.12502106915679541382e-19L,4.07112695213653090803e+17L},
{3,15,0.31,5.05390464242929233395e-21L,6.6141511075616790965e+18L},
{8,15,0.31,4.07842319685901576943e-27L,4.21037673559239210916e+24L},
{0,15,1,3.82744055694858734506e-17L,2.41813280423285068366e+15L},
{1,15,1,2.63188892480509934979e-17L,3.40074726305424674043e+15L},
{3,15,1,4.37298428019044524624e-18L,1.77994433856016255465e+16L},
{8,15,1,4.49424084775656353236e-22L,1.10542664773147123561e+20L},
{0,15,2.3,1.1874155796235663651e-14L,1.21169241868456530996e+13L},
{1,15,2.3,9.35316998762443570126e-15L,1.51463956896637183317e+13L},
{3,15,2.3,2.90852858327125404543e-15L,4.53742746636335151741e+13L},
{8,15,2.3,5.04545643196057366516e-18L,1.95453532139982142169e+16L},
{0,15,5,2.43256395055881464285e-11L,9.18670323117901089691e+9L},
{1,15,5,2.08777853181844496255e-11L,1.06191258941767799143e+10L},
{3,15,5,9.81329984498201780512e-12L,2.17514009475448309965e+10L},
{8,15,5,1.38707196359760093747e-13L,1.28336789879084695155e+12L},
{0,15,10,2.05692958147832373429e-7L,1.71864214948428998715e+6L},
{1,15,10,1.86739729288377585972e-7L,1.88367061153157274989e+6L},
{3,15,10,1.15591482266444947735e-7L,2.97038543468508723586e+6L},
{8,15,10,7.28262785579897924695e-9L,4.16203059498836052429e+7L},
{0,15,20,7.74328583879398772878e-3L,9.16585724976754600326e+1L},
{1,15,20,7.36932358543045918459e-3L,9.58224591065005023262e+1L},
{3,15,20,5.75629492780260106548e-3L,1.19692826548872734079e+2L},
{8,15,20,1.3291136030722398584e-3L,4.56946269888970792538e+2L},
{0,15,40,-1.28347335933169082057L,-5.85652959677380345497e-1L},
{1,15,40,-1.26473695736402301529L,-6.28930820377681268802e-1L},
{3,15,40,-1.15233679287576480858L,-8.31772190248698242703e-1L},
{8,15,40,-9.48858895887330225382e-2L,-1.47611051628896889123L},
{0,15,80,4.5846395663465597267e-1L,1.0269648338900697825L},
{1,15,80,4.03878175633496548011e-1L,1.04978305733766572182L},
{3,15,80,1.2035324894835832347e-1L,1.11904472352007223733L},
{8,15,80,-1.10542701727526118488L,2.33253431376486991799e-1L},
{0,15,200,-9.35848995657371185341e-1L,4.56987290808851103336e-1L},
{1,15,200,-9.6212715512990146635e-1L,3.98740473350133214642e-1L},
{3,15,200,-1.0374391149600150672L,9.25324708641511370455e-2L},
{8,15,200,7.65919036889236672395e-2L,-1.03919902924153420256L},
{0,20,0.015625,1.21670538320214703947e-28L,6.75897464854560719146e+25L},
{1,20,0.015625,1.09898583657173408948e-29L,4.16538131452665253616e+26L},
{3,20,0.015625,4.81304153961266078218e-33L,4.52175588730312105603e+29L},
{8,20,0.015625,7.8016010250147611524e-45L,1.17303617982064113957e+41L},
{0,20,0.1,2.81836667043260081334e-27L,8.65622061172625176629e+24L},
{1,20,0.1,9.65206412929161445269e-28L,2.06831343847507464405e+25L},
{3,20,0.1,1.21512426118304751718e-29L,1.01976091585573172818e+27L},
{8,20,0.1,1.69270557589102372473e-37L,3.38269253943530707293e+34L},
{0,20,0.31,8.20760576235289283056e-26L,5.34219184137268043495e+23L},
{1,20,0.31,4.50724637742553424836e-26L,9.01800036594509913631e+23L},
{3,20,0.31,2.89423904697930478139e-27L,1.07979128662250188395e+25L},
{8,20,0.31,7.04588712384228349485e-33L,2.3919646353375504237e+30L},
{0,20,1,2.955643849980860354e-23L,2.70242181623814012889e+21L},
{1,20,1,2.13759071753347719371e-23L,3.64402276807118600805e+21L},
{3,20,1,4.44314299685119672671e-24L,1.5718638637838293329e+22L},
{8,20,1,1.09227053209058536335e-27L,4.33913560198339034904e+25L},
{0,20,2.3,2.23680952276286610211e-20L,5.51550497180997269999e+18L},
{1,20,2.3,1.81697497616101220441e-20L,6.71281843905643529971e+18L},
{3,20,2.3,6.52621467199153179964e-21L,1.77164955549115169609e+19L},
{8,20,2.3,2.15350719083029253723e-23L,4.23513617483019000235e+21L},
{0,20,5,1.64766608021262814524e-16L,1.14643358399589263811e+15L},
{1,20,5,1.4395650786409409555e-16L,1.30471941357387489726e+15L},
{3,20,5,7.36990990232624380762e-17L,2.47938901662565031415e+15L},
{8,20,5,1.57510170583710672166e-18L,1.00942818491587850567e+17L},
{0,20,10,8.04704839549374259168e-12L,3.58667771567808065796e+10L},
{1,20,10,7.36763674465033166911e-12L,3.90442540910179082989e+10L},
{3,20,10,4.7509920376454345915e-12L,5.95694768011552516165e+10L},
{8,20,10,3.67755105937143747225e-13L,7.04768728440114558691e+11L},
{0,20,20,5.45294696083015085508e-6L,9.17227678321025513937e+4L},
{1,20,20,5.18071773147414323342e-6L,9.63015760842110312287e+4L},
{3,20,20,4.01320364199743531438e-6L,1.2279670269563786222e+5L},
{8,20,20,8.87695699093683050786e-7L,5.18616439520362700374e+5L},
{0,20,40,1.16262848573627732886L,2.01741484237379700886L},
{1,20,40,1.14995113167799578884L,2.0383692014004117278L},
{3,20,40,1.0871627167402297155L,2.1426051043803273197L},
{8,20,40,7.45729446207898711763e-1L,2.79406271990840778164L},
{0,20,80,-1.20597026498871262108e-1L,-1.18300087716218947219L},
{1,20,80,-7.87621371945692430604e-2L,-1.18670665842309004314L},
{3,20,80,1.29551942957195635325e-1L,-1.18317619526020281773L},
{8,20,80,1.07643649843843213976L,-5.21033521177721786557e-1L},
{0,20,200,5.97938676705438499847e-1L,-8.72066971719903619138e-1L},
{1,20,200,6.36302730280512363881e-1L,-8.44502952930236454427e-1L},
{3,20,200,8.06806550825180823557e-1L,-6.83596613346645645482e-1L},
{8,20,200,8.79279969207141375517e-1L,5.88351959260104667454e-1L},
{0,30,0.015625,3.8898511478670851783e-42L,1.83166580343962133242e+39L},
{1,30,0.015625,4.94026049996343921986e-43L,8.79718003430253869906e+39L},
{3,30,0.015625,4.6514662119687108135e-46L,4.62226794271530997983e+42L},
{8,30,0.015625,4.96082791156729081294e-57L,1.84080917145103341397e+53L},
{0,30,0.1,1.45477390564959816646e-40L,1.38124505825895367807e+38L},
{1,30,0.1,6.07004530850328094573e-41L,2.86635951858077643753e+38L},
{3,30,0.1,1.4284964307732382488e-42L,8.18488335979324946448e+39L},
{8,30,0.1,1.18031688714566751778e-49L,4.78860635267327666945e+46L},
{0,30,0.31,8.30262112252859184268e-39L,4.31774400255355649288e+36L},
{1,30,0.31,5.10582685045038457444e-39L,6.66783208305515389828e+36L},
{3,30,0.31,5.17355449714069150548e-40L,5.39928485173183626914e+37L},
{8,30,0.31,6.12562580700840722724e-45L,2.65558025728031124084e+42L},
{0,30,1,1.05532273812368295353e-35L,6.15847909271778229326e+33L},
{1,30,1,8.10449270731851111998e-36L,7.88632482947498342435e+33L},
{3,30,1,2.22179127193614712418e-36L,2.6662795989688904444e+34L},
{8,30,1,1.82634915206851310037e-39L,2.38924740681783841347e+37L},
{0,30,2.3,3.53767908122819386121e-32L,2.81987026865552163628e+30L},
{1,30,2.3,2.98290318507466128701e-32L,3.31937486682848243972e+30L},
{3,30,2.3,1.28130538668427274302e-32L,7.45557021051355865142e+30L},
{8,30,2.3,1.01801093952979851157e-34L,7.89019520049896285317e+32L},
{0,30,5,2.16384094337334295091e-27L,6.96484011745033932887e+25L},
{1,30,5,1.93395867053510563407e-27L,7.76452447151927495333e+25L},
{3,30,5,1.10597265812865287146e-27L,1.33386836993708690991e+26L},
{8,30,5,4.22553282806453434065e-29L,3.17503571928053784409e+27L},
{0,30,10,1.81409939015292177442e-21L,1.23242003908230802192e+20L},
{1,30,10,1.68216219076431426864e-21L,1.3264315661382156054e+20L},
{3,30,10,1.15449432679915708408e-21L,1.91371225290285078888e+20L},
{8,30,10,1.25274732102131681307e-22L,1.66854685131844016105e+21L},
{0,30,20,1.02626264940272041747e-13L,3.4449570114434889634e+12L},
{1,30,20,9.78408178007804493107e-14L,3.60894203580688384534e+12L},
{3,30,20,7.70941988319796978674e-14L,4.55183685544606017057e+12L},
{8,30,20,1.87321513588196304605e-14L,1.80774351052058687994e+13L},
{0,30,40,1.03693251143301964679e-4L,6.82495429301659464489e+3L},
{1,30,40,1.012163488421312089e-4L,6.98321035170841868719e+3L},
{3,30,40,8.96950234091976564513e-5L,7.83133169166733837805e+3L},
{8,30,40,4.34990810020111987654e-5L,1.55806850809046234305e+4L},
{0,30,80,1.41226122085745615501L,5.3893586176011161531e-2L},
{1,30,80,1.41160324079795753496L,7.74581851581981692757e-2L},
{3,30,80,1.40250602285802151578L,1.94474953829766140769e-1L},
{8,30,80,1.16201507577754622425L,8.32541408728942157661e-1L},
{0,30,200,1.04431433921747654892L,3.23466185065175932944e-1L},
{1,30,200,1.03491116264102693985L,3.52454794568177077359e-1L},
{3,30,200,9.7617660607319704704e-1L,4.92502003163447877226e-1L},
{8,30,200,3.04407846836923104061e-1L,1.05076077869144032557L},
{0,40,0.015625,1.16616433216192248553e-55L,5.46315152616925073727e+52L},
{1,40,0.015625,1.86001863357478895294e-56L,2.23024721358597789829e+53L},
{3,40,0.015625,2.9947242544544503022e-59L,7.09480657738439437434e+55L},
{8,40,0.015625,1.26043666876373640611e-69L,7.22959108966391554021e+65L},
{0,40,0.1,6.64705338356350766443e-54L,2.62883624776078307995e+51L},
{1,40,0.1,3.12629504208475804718e-54L,4.9963054261234067228e+51L},
{3,40,0.1,1.11301570732992772212e-55L,9.97321348934147035252e+52L},
{8,40,0.1,3.2866585841253137901e-62L,1.69809189498680966494e+59L},
{0,40,0.31,6.71243746047504712331e-52L,4.62812805144320252968e+49L},
{1,40,0.31,4.41460177439527550863e-52L,6.76706989609972509033e+49L},
{3,40,0.31,5.96084389222827024845e-53L,4.27597707836576636573e+50L},
{8,40,0.31,2.11702542186411833162e-57L,7.43408045236013337813e+54L},
{0,40,1,2.47056360473408780639e-48L,2.27429971762644565267e+46L},
{1,40,1,1.96642061182954381217e-48L,2.82180509130806743826e+46L},
{3,40,1,6.38618730883346833126e-49L,8.19708289823477093627e+46L},
{8,40,1,1.17427539154412881155e-51L,3.46171523990141196902e+49L},
{0,40,2.3,2.89070255347021578208e-44L,2.97438142991096290048e+42L},
{1,40,2.3,2.49299311053266665723e-44L,3.42973078187609902534e+42L},
{3,40,2.3,1.19518598546428085511e-44L,6.96372779096122387301e+42L},
{8,40,2.3,1.68958239680110408315e-46L,4.29640197395654692182e+44L},
{0,40,5,1.03466776704044123544e-38L,1.24744221368796523234e+37L},
{1,40,5,9.37962824772732848364e-39L,1.37239834788246970006e+37L},
{3,40,5,5.75218816126782923296e-39L,2.20874595977597568639e+37L},
{8,40,5,3.23302946698699396905e-40L,3.65650903289313639364e+38L},
{0,40,10,9.01918466445553873588e-32L,2.0950917187482962501e+30L},
{1,40,10,8.43602050630261731886e-32L,2.23672721742454100995e+30L},
{3,40,10,6.04342841683135718668e-32L,3.10023922828922091899e+30L},
{8,40,10,8.35811557974623865995e-33L,2.152778289628529608e+31L},
{0,40,20,1.73160364537893241414e-22L,1.66701988478213578822e+21L},
{1,40,20,1.6575445378225319573e-22L,1.74005271015980337352e+21L},
{3,40,20,1.33250980565864507201e-22L,2.15554890106236499251e+21L},
{8,40,20,3.63132453278791099265e-23L,7.72093336703938908726e+21L},
{0,40,40,6.03915332971590283531e-11L,8.27995622643098400158e+9L},
{1,40,40,5.88823290824806712431e-11L,8.48687341570706698387e+9L},
{3,40,40,5.18878831735297160288e-11L,9.60096436350158618095e+9L},
{8,40,40,2.43672187221747815608e-11L,2.00740826793884908005e+10L},
{0,40,80,1.30574801234024754219L,2.2632624413793765624L},
{1,40,80,1.30014321344437158259L,2.27268773646799391875L},
{3,40,80,1.27218098061125624374L,2.31974285746909373549L},
{8,40,80,1.10794403878110752615L,2.60257227569238350488L},
{0,40,200,-8.95661362686696022746e-1L,-6.99122647248502254097e-1L},
{1,40,200,-8.81977817304638971485e-1L,-7.16345355887716233593e-1L},
{3,40,200,-8.08824848056651732275e-1L,-7.98189788336006004408e-1L},
{8,40,200,-2.45426513498617090286e-1L,-1.11026489703440053974L},
